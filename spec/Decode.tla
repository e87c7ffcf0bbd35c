------------------------------- MODULE Decode -------------------------------
(* C06 / C07: a decoding job.  A phone loop is built (units of several groups), *)
(* utterances are generated as annotated walks through the loop (or through an  *)
(* alignment graph, which is the chain of the traversed units), then decoded    *)
(* on request.  The walk knows which unit it traverses; the decoder only sees   *)
(* the densities of the best path.                                             *)
EXTENDS UnitLoop, Json

CONSTANTS Topos, NGroups, MinUnits, MaxUnits, MaxFrames, MaxUtts, MaxReqs, PlainFlats

VARIABLES groups, units, stage, cur, utts, reqs, opts
vars == <<groups, units, stage, cur, utts, reqs, opts>>

NoWalk == [path |-> <<>>, labels |-> <<>>, frames |-> <<>>]
Init == /\ groups = <<>> /\ units = <<>> /\ stage = "conf" /\ cur = NoWalk
        /\ utts = <<>> /\ reqs = <<>> /\ opts = [alis |-> FALSE, listed |-> FALSE]

AddGroup(t) == stage = "conf" /\ Len(groups) < NGroups /\ groups' = Append(groups, t) /\ UNCHANGED <<units, stage, cur, utts, reqs, opts>>
EndConf == stage = "conf" /\ Len(groups) = NGroups /\ stage' = "list" /\ UNCHANGED <<groups, units, cur, utts, reqs, opts>>
AddUnit(g) == stage = "list" /\ Len(units) < MaxUnits /\ units' = Append(units, g) /\ UNCHANGED <<groups, stage, cur, utts, reqs, opts>>
EndList(a) == /\ stage = "list" /\ Len(units) >= MinUnits
              /\ \A g \in 1..Len(groups) : \E u \in 1..Len(units) : units[u] = g
              /\ stage' = "walk" /\ opts' = [opts EXCEPT !.alis = a] /\ UNCHANGED <<groups, units, cur, utts, reqs>>

U == 1..Len(units)
UG(u) == UnitGraph(groups, units, u)
Here == cur.labels[Len(cur.labels)]
Local == cur.path[Len(cur.path)] - FirstPdf(groups, units, Here) + 1     \* state of the unit graph
Exits(u, x) == HasArc(UG(u), x, UG(u).end)
MayExit == IF cur.path = <<>> THEN TRUE ELSE Exits(Here, Local)

Enter(u) == /\ stage = "walk" /\ Len(utts) < MaxUtts /\ Len(cur.path) < MaxFrames /\ MayExit
            /\ cur' = [path |-> Append(cur.path, FirstPdf(groups, units, u)), labels |-> Append(cur.labels, u), frames |-> Append(cur.frames, u)]
            /\ UNCHANGED <<groups, units, stage, utts, reqs, opts>>
Move(a) == /\ stage = "walk" /\ cur.path # <<>> /\ Len(cur.path) < MaxFrames
           /\ a[1] = Local /\ a[2] # UG(Here).end
           /\ cur' = [path |-> Append(cur.path, FirstPdf(groups, units, Here) + a[2] - 1), labels |-> cur.labels, frames |-> Append(cur.frames, Here)]
           /\ UNCHANGED <<groups, units, stage, utts, reqs, opts>>
(* kind: "plain" no alignment graph; "ali" forced alignment; "flat" forced      *)
(* alignment with uninformative features                                       *)
EndUtt(kind) == /\ stage = "walk" /\ cur.path # <<>> /\ MayExit
                /\ kind # "plain" => opts.alis
                /\ utts' = Append(utts, cur @@ [kind |-> kind]) /\ cur' = NoWalk
                /\ UNCHANGED <<groups, units, stage, reqs, opts>>
EndWalks(l) == /\ stage = "walk" /\ cur = NoWalk /\ Len(utts) > 0 /\ stage' = "request" /\ opts' = [opts EXCEPT !.listed = l]
               /\ UNCHANGED <<groups, units, cur, utts, reqs>>
(* requests: 1..Len(utts) existing utterances, larger numbers do not exist      *)
Request(k) == stage = "request" /\ opts.listed /\ Len(reqs) < MaxReqs /\ reqs' = Append(reqs, k) /\ UNCHANGED <<groups, units, stage, cur, utts, opts>>
Decoded == stage = "request" /\ (opts.listed => Len(reqs) > 0) /\ stage' = "done" /\ UNCHANGED <<groups, units, cur, utts, reqs, opts>>

Next == \/ \E t \in Topos : AddGroup(t)
        \/ EndConf \/ (\E g \in 1..Len(groups) : AddUnit(g)) \/ (\E a \in BOOLEAN : EndList(a))
        \/ (\E u \in U : Enter(u))
        \/ (cur.path # <<>> /\ \E a \in UG(Here).arcs : Move(a))
        \/ (\E k \in {"plain", "ali", "flat"} : EndUtt(k))
        \/ (\E l \in BOOLEAN : EndWalks(l)) \/ (\E k \in 1..(Len(utts) + 2) : Request(k)) \/ Decoded

Done == stage = "done"
(* which utterances are printed, in which order; missing ones are reported      *)
Printed == IF opts.listed THEN SelectSeq(reqs, LAMBDA k : k <= Len(utts)) ELSE [i \in 1..Len(utts) |-> i]
Missing == SelectSeq(reqs, LAMBDA k : k > Len(utts))

(* the decoder's reading of a density path: a label whenever an entry density   *)
(* is reached from a different density                                         *)
EntryOf(p) == {u \in U : FirstPdf(groups, units, u) = p}
RECURSIVE Collapse(_, _)
Collapse(path, i) ==
  IF i > Len(path) THEN <<>>
  ELSE (IF EntryOf(path[i]) # {} /\ (i = 1 \/ path[i] # path[i - 1]) THEN <<CHOOSE u \in EntryOf(path[i]) : TRUE>> ELSE <<>>)
       \o Collapse(path, i + 1)

JobJ == [groups |-> [g \in 1..Len(groups) |-> [n |-> Topo(groups[g]).n, arcs |-> Topo(groups[g]).arcs, id |-> groups[g]]],
         units |-> units, boundary |-> 0, npdf |-> NPdf(groups, units),
         start |-> [u \in U |-> FirstPdf(groups, units, u)], end |-> [u \in U |-> LastPdf(groups, units, u)],
         utts |-> [i \in 1..Len(utts) |-> utts[i] @@
                    [ali |-> IF utts[i].kind = "plain" THEN <<>> ELSE <<Compile(AliGraph(groups, units, utts[i].labels))>>]],
         reqs |-> reqs, listed |-> opts.listed, alis |-> opts.alis, printed |-> Printed, missing |-> Missing]
Emit == Done => PrintT("@@" \o ToJson(JobJ))

(* ------------------------------------------------ theorems about the spec *)
LeftToRight == \A u \in U : UTopo(groups, units, u).n > 3 /\ \A a \in UTopo(groups, units, u).arcs : a[1] <= a[2]
Readable == (Done /\ LeftToRight) => \A i \in 1..Len(utts) : Collapse(utts[i].path, 1) = utts[i].labels
(* every walk is a possible path of the loop, and of the alignment graph        *)
Possible(c, path) ==
  LET RECURSIVE Reach(_, _)
      Reach(S, i) == IF i > Len(path) THEN S
                     ELSE Reach({j \in DOMAIN c.pdf : c.pdf[j] = path[i] /\ (IF i = 1 THEN RPos(c.init[j]) ELSE \E k \in S : RPos(c.trans[k][j]))}, i + 1)
  IN \E j \in Reach({}, 1) : RPos(c.final[j])
WalksPossible == Done => \A i \in 1..Len(utts) :
   /\ Possible(Compile(DecodeGraph(groups, units, 0)), utts[i].path)
   /\ Possible(Compile(AliGraph(groups, units, utts[i].labels)), utts[i].path)
(* the alignment graph accepts exactly the concatenations of traversals, each   *)
(* path with the product of the unit weights                                   *)
AliLen == 4
AliAccepts == Done => \A i \in 1..Len(utts) :
   Language(Compile(AliGraph(groups, units, utts[i].labels)), AliLen) = ChainLang(groups, units, utts[i].labels, 1, AliLen)
=============================================================================
