----------------------------- MODULE GraphEdit -----------------------------
(* C01: editing histories of a graph.  A host graph is connected arc by arc, *)
(* then states are replaced by unit graphs and the graph is normalised, in   *)
(* any order.  Each finished history is printed with the graph it must give. *)
EXTENDS GraphOps, Json

CONSTANTS Inner,       \* number of inner (placeholder) states of the host
          MaxArcs,     \* arcs of the host
          MaxOps,      \* replacements / normalisations after that
          Weights,     \* arc weights of the host (positive integers)
          Templates,   \* indices into TemplateSeq
          PathLen,     \* length bound for the path-language theorem
          PrintOut     \* print finished histories

VARIABLES g, arcs, ops, phase, prev, done
vars == <<g, arcs, ops, phase, prev, done>>

A(s, e, n, d) == Arc(s, e, <<n, d>>)
T(ids, pdf, as, st, en) == [ids |-> ids, pdf |-> pdf, arcs |-> as, start |-> st, end |-> en, next |-> Len(ids)]
PF(p0, p1, p2, p3) == (0 :> p0) @@ (1 :> p1) @@ (2 :> p2) @@ (3 :> p3)

(* unit graphs: left-to-right HMMs with non-emitting ends, a skip topology,  *)
(* a parallel topology, and a bare emitting state                            *)
TemplateSeq == <<
  T(<<0, 1, 2>>, (0 :> None) @@ (1 :> 11) @@ (2 :> None),
    {A(0, 1, 1, 1), A(1, 1, 3, 4), A(1, 2, 1, 4)}, 0, 2),
  T(<<0, 1, 2, 3>>, PF(None, 21, 22, None),
    {A(0, 1, 1, 1), A(1, 1, 1, 2), A(1, 2, 1, 2), A(2, 2, 2, 3), A(2, 3, 1, 3)}, 0, 3),
  T(<<0, 1, 2, 3>>, PF(None, 31, 32, None),
    {A(0, 1, 1, 3), A(0, 2, 2, 3), A(1, 3, 1, 1), A(2, 3, 1, 2), A(2, 1, 1, 2)}, 0, 3),
  T(<<0>>, (0 :> 41), {}, 0, 0),
  (* end state created before the start state *)
  T(<<0, 1, 2>>, (0 :> None) @@ (1 :> 51) @@ (2 :> None),
    {A(2, 1, 1, 2), A(1, 0, 1, 1), A(2, 0, 1, 2)}, 2, 0),
  (* end state with an arc back into the unit *)
  T(<<0, 1>>, (0 :> 61) @@ (1 :> 62), {A(0, 1, 1, 2), A(0, 0, 1, 2), A(1, 0, 1, 3)}, 0, 1)
>>

HostPdf == [x \in 0..(Inner + 1) |-> IF x < 2 THEN None ELSE 100 + x]
Host == [ids |-> [i \in 1..(Inner + 2) |-> i - 1], pdf |-> HostPdf, arcs |-> {},
         start |-> 0, end |-> 1, next |-> Inner + 2]

Init == g = Host /\ arcs = <<>> /\ ops = <<>> /\ phase = "build" /\ prev = Host /\ done = FALSE

Code(s, e) == s * 50 + e
Last == IF arcs = <<>> THEN -1 ELSE Code(arcs[Len(arcs)][1], arcs[Len(arcs)][2])

Connect(s, e, w) ==
  /\ phase = "build" /\ Len(arcs) < MaxArcs
  /\ Code(s, e) > Last
  /\ g' = AddArc(g, s, e, R(w)) /\ arcs' = Append(arcs, <<s, e, w>>)
  /\ UNCHANGED <<ops, phase, prev, done>>

Close == phase = "build" /\ arcs # <<>> /\ phase' = "edit" /\ UNCHANGED <<g, arcs, ops, prev, done>>

ReplaceState(s, t) ==
  /\ phase = "edit" /\ ~done /\ Len(ops) < MaxOps
  /\ prev' = g
  /\ g' = Replace(g, s, TemplateSeq[t])
  /\ WellFormed(g')
  /\ ops' = Append(ops, [op |-> "replace", state |-> s, unit |-> t])
  /\ UNCHANGED <<arcs, phase, done>>

DoNormalize ==
  /\ phase = "edit" /\ ~done /\ Len(ops) < MaxOps
  /\ prev' = g /\ g' = Normalize(g)
  /\ ops' = Append(ops, [op |-> "normalize", state |-> 0, unit |-> 0])
  /\ UNCHANGED <<arcs, phase, done>>

Finish == phase = "edit" /\ Len(ops) > 0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<g, arcs, ops, phase, prev>>

Next == \/ \E s, e \in Live(g), w \in Weights : Connect(s, e, w)
        \/ Close
        \/ \E s \in Live(g), t \in Templates : ReplaceState(s, t)
        \/ DoNormalize
        \/ Finish

GraphJson(h) == [ids |-> h.ids, pdf |-> [i \in 1..Len(h.ids) |-> h.pdf[h.ids[i]]],
                 arcs |-> h.arcs, start |-> h.start, end |-> h.end]
Emit == (PrintOut /\ done) =>
           PrintT("@@" \o ToJson([inner |-> Inner, arcs |-> arcs, ops |-> ops, graph |-> GraphJson(g)]))

(* the unit graphs, printed for the replay driver                            *)
InitTemplates == /\ Init
                 /\ \A t \in Templates : PrintT("@@" \o ToJson([index |-> t, template |-> GraphJson(TemplateSeq[t])]))

(* ------------------------------------------------ theorems about the spec *)
NoDangling == WellFormed(g)
NormalizedSums == (ops # <<>> /\ ops[Len(ops)].op = "normalize") =>
                    /\ \A s \in Live(g) : Out(g, s) # {} => OutWeight(g, s) = ROne
                    /\ \A a \in prev.arcs, b \in prev.arcs : a[1] = b[1] =>
                         \E c \in g.arcs, d \in g.arcs : /\ c[1] = a[1] /\ c[2] = a[2] /\ d[1] = b[1] /\ d[2] = b[2]
                                                         /\ RMul(c[3], b[3]) = RMul(d[3], a[3])

(* one scale on every weight commutes with replacement and is forgotten by     *)
(* normalisation: the replay scales host and units by powers of two            *)
Scaled(h, c) == [h EXCEPT !.arcs = {Arc(a[1], a[2], RMul(c, a[3])) : a \in @}]
ScaleFree == ops # <<>> => LET o == ops[Len(ops)] c == RQ(1, 8) IN
  IF o.op = "normalize" THEN Normalize(Scaled(prev, c)) = g
  ELSE Replace(Scaled(prev, c), o.state, Scaled(TemplateSeq[o.unit], c)) = Scaled(g, c)

(* Replacement is path substitution: the weighted paths of the new graph    *)
(* (up to PathLen arcs) are exactly the paths of the old graph in which       *)
(* every visit of the replaced state is written out as one traversal of the   *)
(* copy of the unit, with the product of the weights.                         *)
IsPathSubst ==
  (ops # <<>> /\ ops[Len(ops)].op = "replace") =>
  LET o == ops[Len(ops)]
      h == TemplateSeq[o.unit]
      new(x) == prev.next + (CHOOSE i \in 1..Len(h.ids) : h.ids[i] = x) - 1
      Inside == {[p |-> [i \in 1..Len(q) |-> new(q[i])], w |-> PathWeight(h, q)] : q \in Paths(h, PathLen)}
      RECURSIVE Expand(_)
      Expand(q) ==          \* weighted expansions of the old path q (bounded)
        LET heads == IF q[1] = o.state THEN Inside ELSE {[p |-> <<q[1]>>, w |-> ROne]}
        IN IF Len(q) = 1 THEN heads
           ELSE LET aw == PathWeight(prev, <<q[1], q[2]>>)
                    tails == Expand(Tail(q))
                IN {[p |-> x.p \o y.p, w |-> RMul(x.w, RMul(aw, y.w))] :
                      <<x, y>> \in {z \in heads \X tails : Len(z[1].p) + Len(z[2].p) <= PathLen + 1}}
      expected == {x \in UNION {Expand(q) : q \in Paths(prev, PathLen)} : Len(x.p) <= PathLen + 1}
      actual   == {[p |-> q, w |-> PathWeight(g, q)] : q \in Paths(g, PathLen)}
  IN expected = actual
============================================================================
