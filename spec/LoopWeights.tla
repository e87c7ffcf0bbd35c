----------------------------- MODULE LoopWeights -----------------------------
(* C10: the weights of the units in a phone loop.  A loop is built; training     *)
(* steps (forward-backward, best path, given path, alignment graph) on           *)
(* utterances whose state path is certain, saving/reloading and copying are      *)
(* interleaved.  The statistics of the weights are the unit entries of the path; *)
(* the loop transitions are exit probability times the expected weight.          *)
EXTENDS UnitLoop, Json

CONSTANTS Topos, NGroups, MinUnits, MaxUnits, MaxFrames, MaxOps, FlatLen, Kinds, Rates, Strengths

VARIABLES groups, units, boundary, kind, strength, c, conc, walk, hist, stage
vars == <<groups, units, boundary, kind, strength, c, conc, walk, hist, stage>>

Init == /\ groups = <<>> /\ units = <<>> /\ boundary = 0 /\ kind \in Kinds /\ strength \in Strengths /\ c = <<>> /\ conc = <<>>
        /\ walk = <<>> /\ hist = <<>> /\ stage = "conf"

AddGroup(t) == stage = "conf" /\ Len(groups) < NGroups /\ groups' = Append(groups, t) /\ UNCHANGED <<units, boundary, kind, strength, c, conc, walk, hist, stage>>
EndConf == stage = "conf" /\ Len(groups) = NGroups /\ stage' = "list" /\ UNCHANGED <<groups, units, boundary, kind, strength, c, conc, walk, hist>>
AddUnit(g) == stage = "list" /\ Len(units) < MaxUnits /\ units' = Append(units, g) /\ UNCHANGED <<groups, boundary, kind, strength, c, conc, walk, hist, stage>>

N == Len(units)
Bigram == kind \in {"dirichlet2", "hierarchical_dirichlet_process"}
(* numbering order of the units = order of the weights                          *)
Ord == NumOrder(groups, units)
Starts == [k \in 1..N |-> FirstPdf(groups, units, Ord[k]) + 1]     \* 1-based state of the compiled loop
Ends == [k \in 1..N |-> LastPdf(groups, units, Ord[k]) + 1]
(* concentration of one unit: 1/2 by default; 1/strength when asked for: small   *)
(* concentrations give expected log weights far below -20                         *)
Prior1 == RQ(1, strength)
PriorC == IF Bigram THEN [k \in 1..N |-> [j \in 1..N |-> Prior1]] ELSE [k \in 1..N |-> Prior1]

Build(b) == /\ stage = "list" /\ Len(units) >= MinUnits
            /\ IF b = 0 THEN TRUE ELSE \E u \in 1..Len(units) : units[u] = b
            /\ \A g \in 1..Len(groups) : \E u \in 1..Len(units) : units[u] = g
            /\ boundary' = b /\ stage' = "run" /\ c' = Compile(DecodeGraph(groups, units, b)) /\ conc' = PriorC
            /\ UNCHANGED <<groups, units, kind, strength, walk, hist>>

(* ---------------------------------------------------------- unit entries  *)
IsEntry(p, t, k) == p[t] = Starts[k] /\ (IF t = 1 THEN TRUE ELSE \E l \in 1..N : p[t - 1] = Ends[l])
FirstEntry(p, k) == IF p[1] = Starts[k] THEN 1 ELSE 0
Loops(p, l, k) == Cardinality({t \in 2..Len(p) : p[t - 1] = Ends[l] /\ p[t] = Starts[k]})
Counts(p) == IF Bigram THEN [l \in 1..N |-> [k \in 1..N |-> Loops(p, l, k)]]
             ELSE [k \in 1..N |-> FirstEntry(p, k) + ISumOver(1..N, LAMBDA l : Loops(p, l, k))]
NoCounts == IF Bigram THEN [l \in 1..N |-> [k \in 1..N |-> 0]] ELSE [k \in 1..N |-> 0]

MixC(old, n, r) == IF Bigram
  THEN [l \in 1..N |-> [k \in 1..N |-> RAdd(RMul(RSub(ROne, r), old[l][k]), RMul(r, RAdd(Prior1, R(n[l][k]))))]]
  ELSE [k \in 1..N |-> RAdd(RMul(RSub(ROne, r), old[k]), RMul(r, RAdd(Prior1, R(n[k]))))]

Step(j) == /\ stage = "run" /\ Len(hist) < MaxOps /\ Len(walk) < MaxFrames
           /\ IF walk = <<>> THEN RPos(c.init[j]) ELSE RPos(c.trans[walk[Len(walk)]][j])
           /\ walk' = Append(walk, j) /\ UNCHANGED <<groups, units, boundary, kind, strength, c, conc, hist, stage>>

Train(mode, r) ==
  /\ stage = "run" /\ walk # <<>> /\ RPos(c.final[walk[Len(walk)]])
  /\ LET n == IF mode = "ali" THEN NoCounts ELSE Counts(walk)
     IN /\ conc' = MixC(conc, n, r)
        /\ hist' = Append(hist, [op |-> mode, walk |-> walk, r |-> r, n |-> n, conc |-> conc'])
  /\ walk' = <<>> /\ UNCHANGED <<groups, units, boundary, kind, strength, c, stage>>
Persist(how) == /\ stage = "run" /\ walk = <<>> /\ Len(hist) < MaxOps
                /\ IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].op \notin {"pickle", "copy"}
                /\ hist' = Append(hist, [op |-> how]) /\ UNCHANGED <<groups, units, boundary, kind, strength, c, conc, walk, stage>>
Finish == stage = "run" /\ walk = <<>> /\ Len(hist) = MaxOps /\ stage' = "done" /\ UNCHANGED <<groups, units, boundary, kind, strength, c, conc, walk, hist>>

Next == \/ \E t \in Topos : AddGroup(t)
        \/ EndConf \/ (\E g \in 1..Len(groups) : AddUnit(g)) \/ (\E b \in 0..Len(groups) : Build(b))
        \/ (stage = "run" /\ \E j \in DOMAIN c.init : Step(j))
        \/ (\E m \in {"fb", "viterbi", "path", "ali"}, r \in Rates : Train(m, RQ(r, 4)))
        \/ (\E h \in {"pickle", "copy"} : Persist(h)) \/ Finish

Done == stage = "done"
(* every path of a short utterance with its unit entries: the expected counts    *)
(* under uninformative features are the average over this table                  *)
Flat == LET ps == Accepted(c, FlatLen) IN {[path |-> p, n |-> Counts(p)] : p \in ps}
Emit == Done => PrintT("@@" \o ToJson(
  [groups |-> [g \in 1..Len(groups) |-> [n |-> Topo(groups[g]).n, arcs |-> Topo(groups[g]).arcs, id |-> groups[g]]],
   units |-> units, boundary |-> boundary, kind |-> kind, strength |-> strength, order |-> Ord, starts |-> Starts, ends |-> Ends,
   npdf |-> NPdf(groups, units), compiled |-> c, hist |-> hist, flat |-> Flat, flatlen |-> FlatLen]))

(* ------------------------------------------------ theorems about the spec *)
(* number of unit entries of a path = number of traversals read by the decoder    *)
Traversed(p) == Cardinality({t \in 1..Len(p) : \E k \in 1..N : IsEntry(p, t, k)})
EntriesAreTraversals == Done => \A h \in {hist[i] : i \in 1..Len(hist)} :
  (h.op \notin {"pickle", "copy", "ali"}) =>
    IF Bigram THEN ISumOver(1..N, LAMBDA l : ISumOver(1..N, LAMBDA k : h.n[l][k])) = Traversed(h.walk) - 1
    ELSE ISumOver(1..N, LAMBDA k : h.n[k]) = Traversed(h.walk)
ConcPositive == Done => \A k \in 1..N : IF Bigram THEN \A j \in 1..N : RPos(conc[k][j]) ELSE RPos(conc[k])
=============================================================================
