----------------------------- MODULE BoundaryMatch -----------------------------
(* C23: boundaries of a hypothesised segmentation credited one after the other  *)
(* against those of the reference: the closest one not credited yet, within the *)
(* tolerance.  Ties are open.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Frames, Deltas
VARIABLES refb, hypb, delta, rest, pairs
vars == <<refb, hypb, delta, rest, pairs>>
Abs(x) == IF x < 0 THEN -x ELSE x
Init == refb \in SUBSET Frames /\ hypb \in SUBSET Frames /\ delta \in Deltas /\ rest = hypb /\ pairs = {}
Credited == {p[2] : p \in pairs}
First == CHOOSE b \in rest : \A x \in rest : b <= x
Open == refb \ Credited
Closest(r) == r \in Open /\ \A x \in Open : Abs(First - r) <= Abs(First - x)
Hit(r) == rest # {} /\ Closest(r) /\ Abs(First - r) <= delta /\ pairs' = pairs \cup {<<First, r>>} /\ rest' = rest \ {First} /\ UNCHANGED <<refb, hypb, delta>>
Miss == rest # {} /\ (\A r \in Open : Abs(First - r) > delta) /\ rest' = rest \ {First} /\ UNCHANGED <<refb, hypb, delta, pairs>>
Next == (\E r \in refb : Hit(r)) \/ Miss
Once == Cardinality(Credited) = Cardinality(pairs) /\ Cardinality({p[1] : p \in pairs}) = Cardinality(pairs)
Within == \A p \in pairs : Abs(p[1] - p[2]) <= delta /\ p[1] \in hypb /\ p[2] \in refb
(* nothing creditable is left over                                              *)
Maximal == rest = {} => \A h \in hypb \ {p[1] : p \in pairs}, r \in Open : Abs(h - r) > delta
(* identical segmentations score fully, with any tolerance                      *)
Perfect == (rest = {} /\ refb = hypb /\ delta = 0) => Cardinality(pairs) = Cardinality(refb)
Emit == rest = {} => PrintT("@@" \o ToJson([ref |-> refb, hyp |-> hypb, delta |-> delta, hits |-> Cardinality(pairs)]))
===============================================================================
