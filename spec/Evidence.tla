------------------------------ MODULE Evidence ------------------------------
(* C14: the exact marginal likelihood behind the objective.  The densities and   *)
(* priors are those of Conjugate; the data of a behaviour are explained by a      *)
(* mixture of the rows with symmetric Dirichlet(1) weights: the evidence is the   *)
(* sum over all assignments of the data to the rows of the urn probability of     *)
(* the assignment times the evidence of each row, which is determined by the      *)
(* exact posterior of the row.  For categorical rows the evidence itself is an    *)
(* exact rational.                                                                *)
EXTENDS Conjugate

(* urn probability of a sequence of draws with concentrations c (rationals)       *)
RECURSIVE Urn(_, _)
Urn(c, xs) == IF xs = <<>> THEN ROne
  ELSE LET n == Len(xs) x == xs[n]
           seen == Cardinality({t \in 1..(n - 1) : xs[t] = x})
       IN RMul(Urn(c, SubSeq(xs, 1, n - 1)), RDiv(RAdd(c[x], R(seen)), RAdd(RSumSeq(c), R(n - 1))))

SubData(X, z, r) == LET idx == {t \in 1..Len(X) : z[t] = r} IN
   [i \in 1..Cardinality(idx) |-> X[CHOOSE t \in idx : Cardinality({u \in idx : u <= t}) = i]]
Assignments(X) == [1..Len(X) -> RowSet]
Ones == [r \in RowSet |-> ROne]
ZProb(z) == Urn(Ones, z)
DirEvidence(X) == RSumOver(Assignments(X), LAMBDA z :
   LET RECURSIVE P(_)
       P(r) == IF r = 0 THEN ROne ELSE RMul(P(r - 1), Urn(prior[r].c, LET s == SubData(X, z, r) IN [i \in 1..Len(s) |-> s[i][1]]))
   IN RMul(ZProb(z), P(rows)))

(* exact evidence is emitted where the arithmetic stays within 32 bits              *)
Integral == \A r \in RowSet : \A i \in Dims : prior[r].c[i][2] = 1
Exact(X) == fam = "dir" /\ Len(X) * rows <= (IF Integral THEN 8 ELSE 6)
Last == hist[Len(hist)]
XOf(h) == LET a == Concat(h.batches) IN [t \in 1..Len(a) |-> a[t].x]
Done == phase = "done"
Table(X) == {[z |-> z, w |-> ZProb(z), post |-> [r \in RowSet |-> Textbook(prior[r], SubData(X, z, r))]] : z \in Assignments(X)}

(* ------------------------------------------------------------- theorems *)
ZSum == Done => RSumOver(Assignments(XOf(Last)), ZProb) = ROne
(* evidences of all categorical data sets of a length sum to one, and do not       *)
(* depend on the order of the data                                                 *)
SumToOne == (Done /\ fam = "dir" /\ rows <= 2 /\ Len(XOf(Last)) <= 2) =>
   RSumOver([1..Len(XOf(Last)) -> {<<i>> : i \in Dims}], DirEvidence) = ROne
Exchangeable == (Done /\ Exact(XOf(Last))) => LET X == XOf(Last) n == Len(X) IN
   DirEvidence(X) = DirEvidence([t \in 1..n |-> X[n + 1 - t]])
EvEmit == Done =>
   PrintT("@@" \o ToJson([fam |-> fam, d |-> d, rows |-> rows, prior |-> prior, init |-> Last.post, data |-> XOf(Last),
                          table |-> Table(XOf(Last)), evidence |-> IF Exact(XOf(Last)) THEN DirEvidence(XOf(Last)) ELSE RZero]))
=============================================================================
