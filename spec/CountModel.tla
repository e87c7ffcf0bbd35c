----------------------------- MODULE CountModel -----------------------------
(* The model used to observe training runs exactly: NP two-category weights    *)
(* with Dirichlet priors arranged in mean-field groups.  An utterance is       *)
(* [nf |-> frames, ones |-> <<per parameter, frames of category 1>>].          *)
EXTENDS Rat, TLC

PriorOf(p) == CASE p % 3 = 0 -> <<ROne, ROne>> [] p % 3 = 1 -> <<R(2), ROne>> [] OTHER -> <<RQ(1, 2), R(3)>>
Prior(np) == [p \in 1..np |-> PriorOf(p)]
NGroups(groups) == Cardinality({groups[p] : p \in DOMAIN groups})
Turn(groups, upd) == (upd % NGroups(groups)) + 1

(* frames and statistics of a bag (sequence) of [u, k]: utterance index and the  *)
(* multiplicity its statistics are counted with                                  *)
Frames(utts, bag) == ISumSeq([i \in 1..Len(bag) |-> utts[bag[i].u].nf])
Ones(utts, bag, p) == ISumSeq([i \in 1..Len(bag) |-> bag[i].k * utts[bag[i].u].ones[p]])
Zeros(utts, bag, p) == ISumSeq([i \in 1..Len(bag) |-> bag[i].k * (utts[bag[i].u].nf - utts[bag[i].u].ones[p])])
Size(utts) == ISumSeq([i \in 1..Len(utts) |-> utts[i].nf])

Lerp(r, a, b) == RAdd(RMul(RSub(ROne, r), a), RMul(r, b))
(* one optimiser step with the statistics of the bag scaled by size / frames      *)
Update(groups, post, upd, r, utts, bag) ==
  LET s == RQ(Size(utts), Frames(utts, bag))
  IN [p \in DOMAIN post |->
       IF groups[p] = Turn(groups, upd)
       THEN <<Lerp(r, post[p][1], RAdd(PriorOf(p)[1], RMul(s, R(Ones(utts, bag, p))))),
              Lerp(r, post[p][2], RAdd(PriorOf(p)[2], RMul(s, R(Zeros(utts, bag, p)))))>>
       ELSE post[p]]
=============================================================================
