--------------------------------- MODULE Flow ---------------------------------
(* C30: samples of an inverse autoregressive flow and their log-density.  A row of  *)
(* the network gives a mean m, log2 deviations s and conditioning values f; noise n  *)
(* gives z0 = m + 2^s n; every step k replaces coordinate i by                       *)
(*    M_i(earlier coordinates, f) + 2^(E_i(earlier coordinates)) z_i .               *)
(* The log-density of the result is that of the noise minus log 2 times the sum of   *)
(* all exponents used.  Binary outputs: odds 3^k give the probability of a vector.   *)
EXTENDS Rat, TLC, Json
CONSTANTS MaxD, MaxF, MaxK, MaxT
VARIABLES d, nf, order, steps, rows, phase
vars == <<d, nf, order, steps, rows, phase>>
RECURSIVE Pow2(_)
Pow2(e) == IF e = 0 THEN ROne ELSE IF e > 0 THEN RMul(R(2), Pow2(e - 1)) ELSE RDiv(Pow2(e + 1), R(2))
Dims == 1..d
Perms == {p \in [Dims -> Dims] : \A i, j \in Dims : i # j => p[i] # p[j]}
Before(i) == {j \in Dims : order[j] < order[i]}
First == CHOOSE i \in Dims : order[i] = 1
(* ------------------------------------------------------------------- the map *)
SExp(st, z) == [i \in Dims |-> st.c[i] + (IF i # First /\ z[First][1] > 0 THEN st.e[i] ELSE 0)]
SMean(st, f, z) == [i \in Dims |-> RAdd(R(st.b[i]), RAdd(
   RSumSeq([j \in Dims |-> IF j \in Before(i) THEN RMul(R(st.l[i][j]), z[j]) ELSE RZero]),
   RSumSeq([q \in 1..nf |-> RMul(R(st.g[i][q]), f[q])])))]
StepMap(st, f, z) == LET m == SMean(st, f, z) x == SExp(st, z) IN [i \in Dims |-> RAdd(m[i], RMul(Pow2(x[i]), z[i]))]
Start(r, n) == [i \in Dims |-> RAdd(R(r.m[i]), RMul(Pow2(r.s[i]), n[i]))]
RECURSIVE Through(_, _, _)
Through(k, f, z) == IF k = 0 THEN z ELSE StepMap(steps[k], f, Through(k - 1, f, z))
Push(r, f, n) == Through(Len(steps), f, Start(r, n))
(* the exponents used on the way                                                  *)
Used(r, n) == LET f == [q \in 1..nf |-> R(r.f[q])] IN
  ISumSeq(r.s) + ISumSeq([k \in 1..Len(steps) |-> ISumSeq(SExp(steps[k], Through(k - 1, f, Start(r, n))))])
(* inverse: coordinate by coordinate in the order                                   *)
RECURSIVE UndoUpTo(_, _, _, _, _)
UndoUpTo(o, st, f, y, z) == IF o > d THEN z ELSE
  LET i == CHOOSE c \in Dims : order[c] = o
      x == IF i = First THEN st.c[i] ELSE SExp(st, z)[i]
      m == SMean(st, f, z)[i]
  IN UndoUpTo(o + 1, st, f, y, [z EXCEPT ![i] = RDiv(RSub(y[i], m), Pow2(x))])
RECURSIVE Back(_, _, _)
Back(k, f, y) == IF k = 0 THEN y ELSE Back(k - 1, f, UndoUpTo(1, steps[k], f, y, [i \in Dims |-> RZero]))
(* ------------------------------------------------------------------ derivatives *)
H == RQ(1, 512)
Bump(v, j) == [v EXCEPT ![j] = RAdd(@, H)]
Diff(a, b) == [i \in Dims |-> RDiv(RSub(a[i], b[i]), H)]
ToR(v) == [i \in 1..Len(v) |-> R(v[i])]
(* columns: derivative of the sample with respect to noise j / conditioning value q  *)
ByNoise(r, n) == [j \in Dims |-> Diff(Push(r, ToR(r.f), Bump(n, j)), Push(r, ToR(r.f), n))]
ByFlow(r, n) == [q \in 1..nf |-> Diff(Push(r, Bump(ToR(r.f), q), n), Push(r, ToR(r.f), n))]
Det(M) == CASE d = 1 -> M[1][1]
  [] d = 2 -> RSub(RMul(M[1][1], M[2][2]), RMul(M[1][2], M[2][1]))
  [] OTHER -> LET minor(a, b, i, j) == RSub(RMul(M[a][i], M[b][j]), RMul(M[a][j], M[b][i])) IN
       RAdd(RSub(RMul(M[1][1], minor(2, 3, 2, 3)), RMul(M[1][2], minor(2, 3, 1, 3))), RMul(M[1][3], minor(2, 3, 1, 2)))
(* the switch of the exponents is not crossed by the bump                            *)
Smooth(r, n) == \A k \in 1..Len(steps) : Through(k - 1, ToR(r.f), Start(r, n))[First][1] # 0
(* -------------------------------------------------------------------- behaviours *)
One(S) == RandomElement(S)
Vec(n, S) == [i \in 1..n |-> One(S)]
Mat(n, m, S) == [i \in 1..n |-> Vec(m, S)]
Init == d \in 1..MaxD /\ nf \in 1..MaxF /\ order \in Perms /\ steps = <<>> /\ rows = <<>> /\ phase = "steps"
AddStep == phase = "steps" /\ Len(steps) < MaxK
  /\ steps' = Append(steps, [l |-> Mat(d, d, -1..1), g |-> Mat(d, nf, -1..1), b |-> Vec(d, -1..1), c |-> Vec(d, -1..1), e |-> Vec(d, -1..1)])
  /\ UNCHANGED <<d, nf, order, rows, phase>>
Ready == phase = "steps" /\ phase' = "rows" /\ UNCHANGED <<d, nf, order, steps, rows>>
Arrive == phase = "rows" /\ Len(rows) < MaxT
  /\ rows' = Append(rows, [m |-> Vec(d, -2..2), s |-> Vec(d, -1..1), f |-> Vec(nf, -2..2), n |-> Vec(d, -2..2), odds |-> Vec(d, (-2..2) \cup {-99, 99})])
  /\ UNCHANGED <<d, nf, order, steps, phase>>
Stop == phase = "rows" /\ rows # <<>> /\ phase' = "done" /\ UNCHANGED <<d, nf, order, steps, rows>>
Next == AddStep \/ Ready \/ Arrive \/ Stop
Done == phase = "done"
(* ---------------------------------------------------------------------- binary *)
RECURSIVE Pow3(_)
Pow3(k) == IF k = 0 THEN ROne ELSE IF k > 0 THEN RMul(R(3), Pow3(k - 1)) ELSE RDiv(Pow3(k + 1), R(3))
(* a sure output: the probability is one or zero up to rounding                      *)
P1(k) == IF k = 99 THEN ROne ELSE IF k = -99 THEN RZero ELSE RDiv(Pow3(k), RAdd(ROne, Pow3(k)))
RECURSIVE RProdTo(_, _)
RProdTo(f, n) == IF n = 0 THEN ROne ELSE RMul(f[n], RProdTo(f, n - 1))
Prob(odds, x) == RProdTo([i \in Dims |-> IF x[i] = 1 THEN P1(odds[i]) ELSE RSub(ROne, P1(odds[i]))], d)
RECURSIVE Words(_)
Words(n) == IF n = 0 THEN <<<<>>>> ELSE LET w == Words(n - 1) IN [i \in 1..(2 * Len(w)) |-> IF i <= Len(w) THEN Append(w[i], 0) ELSE Append(w[i - Len(w)], 1)]
(* ---------------------------------------------------------------------- theorems *)
NR(r) == ToR(r.n)
ChangeOfVariables == Done => \A t \in 1..Len(rows) : LET r == rows[t] IN
  Smooth(r, NR(r)) => Det(ByNoise(r, NR(r))) = Pow2(Used(r, NR(r)))
Triangular == Done => \A t \in 1..Len(rows) : LET r == rows[t] IN
  Smooth(r, NR(r)) => \A i, j \in Dims : order[j] > order[i] => ByNoise(r, NR(r))[j][i] = RZero
Invertible == Done => \A t \in 1..Len(rows) : LET r == rows[t] IN
  Back(Len(steps), ToR(r.f), Push(r, ToR(r.f), NR(r))) = Start(r, NR(r))
Normalised == Done => \A t \in 1..Len(rows) : LET w == Words(d) IN RSumSeq([i \in 1..Len(w) |-> Prob(rows[t].odds, w[i])]) = ROne
Zero == [i \in Dims |-> RZero]
B(x) == IF x THEN 1 ELSE 0
Emit == Done => PrintT("@@" \o ToJson([d |-> d, nf |-> nf, order |-> order, steps |-> steps, words |-> Words(d), rows |-> [t \in 1..Len(rows) |->
  LET r == rows[t] IN [m |-> r.m, s |-> r.s, f |-> r.f, n |-> r.n, odds |-> r.odds, z |-> Push(r, ToR(r.f), NR(r)), used |-> Used(r, NR(r)),
   middle |-> Push(r, ToR(r.f), Zero), middleused |-> Used(r, Zero), smooth |-> B(Smooth(r, NR(r))), dn |-> ByNoise(r, NR(r)), df |-> ByFlow(r, NR(r)),
   prob |-> LET w == Words(d) IN [i \in 1..Len(w) |-> Prob(r.odds, w[i])]]]]))
===============================================================================
