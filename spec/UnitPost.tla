------------------------------ MODULE UnitPost ------------------------------
(* C08: unit posteriors.  On top of the inference model (HmmInference): the     *)
(* states are partitioned into units (contiguous density ranges, any inventory  *)
(* order), the acoustic scale is an exponent on the emission likelihoods, and   *)
(* the posterior of a unit is the sum over all its states.                     *)
EXTENDS HmmInference

CONSTANTS Scales
VARIABLES part,     \* sequence of <<first, last>> in inventory order
          scale, raw
uvars == <<vars, part, scale, raw>>

(* all ways to cut 1..S in contiguous ranges                                   *)
RECURSIVE Cuts(_)
Cuts(a) == IF a > S THEN {<<>>} ELSE UNION {{<<<<a, b>>>> \o c : c \in Cuts(b + 1)} : b \in a..S}
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}

UInit == /\ Init /\ scale \in Scales /\ raw = <<>>
         /\ \E c \in Cuts(1) : \E p \in Perms(Len(c)) : part = [i \in 1..Len(c) |-> c[p[i]]]
UFrame(l) == raw' = Append(raw, l) /\ Frame([i \in St |-> l[i] ^ scale]) /\ UNCHANGED <<part, scale>>
UNext == \/ (ChooseInit \/ ChooseFinal \/ ChooseRow \/ Finish) /\ UNCHANGED <<part, scale, raw>>
         \/ \E l \in Vec(EmisVals) : UFrame(l)

Unit(g, u) == ISumOver(part[u][1]..part[u][2], LAMBDA i : g[i])
UnitGamma == LET p == Posteriors IN [t \in 1..N |-> [u \in DOMAIN part |-> Unit(p.gamma[t], u)]]
UEmit == done => PrintT("@@" \o ToJson([init |-> init, final |-> final, trans |-> trans, raw |-> raw, scale |-> scale,
                                        part |-> part, post |-> Posteriors, units |-> UnitGamma]))
(* theorem: a distribution over units at every frame                           *)
Distribution == done => \A t \in 1..N : Sum(UnitGamma[t]) = Evidence
=============================================================================
