------------------------------- MODULE Gaussian -------------------------------
(* C26: sets of Normal densities.  A density is its mean m and the Cholesky      *)
(* factor L of its covariance (integers).  A behaviour builds two sets p and q    *)
(* of K densities and some data, then changes p: densities are selected, p takes *)
(* the natural parameters of q.  Everything that is rational is exact: natural    *)
(* parameters, squared distances, determinants, expected statistics, the          *)
(* rational part of the divergences.                                              *)
EXTENDS Rat, TLC, Json
CONSTANTS MaxD, MaxK, MaxN, MaxOps, MeanR, Diag, OffR
VARIABLES d, diag, p, q, k, x, ops, phase
vars == <<d, diag, p, q, k, x, ops, phase>>
MatMul(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> RSumSeq([h \in 1..Len(B) |-> RMul(A[i][h], B[h][j])])]]
Tr(A) == [j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]]
MatVec(A, v) == [i \in 1..Len(A) |-> RSumSeq([h \in 1..Len(v) |-> RMul(A[i][h], v[h])])]
Dot(u, v) == RSumSeq([h \in 1..Len(u) |-> RMul(u[h], v[h])])
VSub(u, v) == [h \in 1..Len(u) |-> RSub(u[h], v[h])]
Outer(u, v) == [i \in 1..Len(u) |-> [j \in 1..Len(v) |-> RMul(u[i], v[j])]]
Eye(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN ROne ELSE RZero]]
(* inverse of a lower triangular matrix, column by column                         *)
RECURSIVE SolveCol(_, _, _)
SolveCol(L, j, i) == \* entries 1 .. i of the solution of L y = e_j
  IF i = 0 THEN <<>>
  ELSE LET y == SolveCol(L, j, i - 1)
           s == RSumSeq([h \in 1..(i - 1) |-> RMul(L[i][h], y[h])])
       IN Append(y, RDiv(RSub(IF i = j THEN ROne ELSE RZero, s), L[i][i]))
LInv(L) == LET cols == [j \in 1..Len(L) |-> SolveCol(L, j, Len(L))] IN [i \in 1..Len(L) |-> [j \in 1..Len(L) |-> cols[j][i]]]
RMat(L) == [i \in 1..Len(L) |-> [j \in 1..Len(L) |-> R(L[i][j])]]
RVec(v) == [i \in 1..Len(v) |-> R(v[i])]
Cov(g) == MatMul(RMat(g.l), Tr(RMat(g.l)))
Prec(g) == LET I == LInv(RMat(g.l)) IN MatMul(Tr(I), I)
NMean(g) == MatVec(Prec(g), RVec(g.m))
Det(g) == LET RECURSIVE Go(_) Go(i) == IF i = 0 THEN ROne ELSE RMul(R(g.l[i][i] * g.l[i][i]), Go(i - 1)) IN Go(Len(g.l))
(* squared Mahalanobis distance of the datum to the mean                           *)
Sq(g, y) == LET u == MatVec(LInv(RMat(g.l)), VSub(y, RVec(g.m))) IN Dot(u, u)
Second(g) == LET C == Cov(g) M == Outer(RVec(g.m), RVec(g.m)) IN [i \in 1..Len(C) |-> [j \in 1..Len(C) |-> RAdd(C[i][j], M[i][j])]]
(* 2 KL(g || h) = rational part + log det h - log det g                            *)
Frob(A) == RSumSeq([i \in 1..Len(A) |-> Dot(A[i], A[i])])
KlRat(g, h) == RSub(RAdd(Frob(MatMul(LInv(RMat(h.l)), RMat(g.l))), Sq(h, RVec(g.m))), R(Len(g.m)))
(* ------------------------------------------------------------------ behaviours *)
Lower(n, L) == \A i \in 1..n : \A j \in 1..n : IF i = j THEN L[i][j] \in Diag ELSE IF j > i \/ diag THEN L[i][j] = 0 ELSE Abs(L[i][j]) <= OffR
Pick(S) == IF S = {} THEN 0 ELSE CHOOSE z \in S : TRUE
Init == d \in 1..MaxD /\ diag \in BOOLEAN /\ k \in 1..MaxK /\ p = <<>> /\ q = <<>> /\ x = <<>> /\ ops = <<>> /\ phase = "dens"
Entries == IF diag THEN {0} ELSE (-OffR)..OffR
Tri(f, g) == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN f[i] ELSE IF j < i THEN g[(i - 1) * d + j] ELSE 0]]
Offs == IF d = 1 THEN {[z \in {1} |-> 0]} ELSE IF d = 2 THEN {[z \in {3} |-> e] : e \in Entries} ELSE [{4, 7, 8} -> Entries]
AddDens == /\ phase = "dens"
           /\ \E mu \in [1..d -> (-MeanR)..MeanR], f \in [1..d -> Diag], g \in Offs :
                LET e == [m |-> mu, l |-> Tri(f, g)]
                IN IF Len(p) < k THEN p' = Append(p, e) /\ q' = q /\ phase' = phase
                   ELSE p' = p /\ q' = Append(q, e) /\ phase' = IF Len(q) + 1 = k THEN "data" ELSE phase
           /\ UNCHANGED <<d, diag, k, x, ops>>
AddX == phase = "data" /\ Len(x) < MaxN /\ UNCHANGED <<d, diag, p, q, k, ops, phase>>
   /\ \E y \in [1..d -> (-MeanR)..MeanR] : x' = Append(x, y)
Ready == phase = "data" /\ Len(x) > 0 /\ phase' = "ops" /\ ops' = <<[op |-> "start", p |-> p \o q]>> /\ UNCHANGED <<d, diag, p, q, k, x>>
(* p takes the natural parameters of q, density by density; the sets are swapped; *)
(* p takes its own natural parameters back                                         *)
Log(o) == ops' = Append(ops, [op |-> o, p |-> p'])
Assign == p' = q /\ q' = q /\ Log("assign")
Swap == p' = q /\ q' = p /\ Log("swap")
Keep == p' = p /\ q' = q /\ Log("keep")
Roll == p' = Tail(p) \o <<Head(p)>> /\ q' = q /\ Log("roll")
Op == phase = "ops" /\ Len(ops) <= MaxOps /\ (Assign \/ Swap \/ Keep \/ Roll) /\ UNCHANGED <<d, diag, k, x, phase>>
Stop == phase = "ops" /\ phase' = "done" /\ UNCHANGED <<d, diag, p, q, k, x, ops>>
Next == AddDens \/ AddX \/ Ready \/ Op \/ Stop
(* -------------------------------------------------------------------- theorems *)
Both == {p[i] : i \in 1..Len(p)} \cup {q[i] : i \in 1..Len(q)}
InverseRight == phase = "ops" => \A g \in Both : MatMul(Prec(g), Cov(g)) = Eye(d)
(* the log density in natural form: np1 . x - 1/2 tr(P x x') - 1/2 m'P m  =  -1/2 Sq  *)
NaturalRight == phase = "ops" => \A g \in Both : \A n \in 1..Len(x) :
  LET y == RVec(x[n]) m == RVec(g.m) P == Prec(g)
  IN RSub(RAdd(Dot(y, MatVec(P, y)), Dot(m, NMean(g))), RMul(R(2), Dot(NMean(g), y))) = Sq(g, y)
(* sigma points: the 2^d corners of the whitened cube have the moments of the density *)
Corners == [1..d -> {-1, 1}]
Point(g, s) == LET u == MatVec(RMat(g.l), RVec(s)) IN [i \in 1..d |-> RAdd(R(g.m[i]), u[i])]
Avg(op(_)) == RDiv(RSumOver(Corners, op), R(Cardinality(Corners)))
MomentsRight == phase = "ops" => \A g \in Both : \A i \in 1..d :
  /\ Avg(LAMBDA s : Point(g, s)[i]) = R(g.m[i])
  /\ \A j \in 1..d : Avg(LAMBDA s : RMul(Point(g, s)[i], Point(g, s)[j])) = Second(g)[i][j]
KlRight == phase = "ops" => \A i \in 1..k :
  Avg(LAMBDA s : RSub(Sq(q[i], Point(p[i], s)), Sq(p[i], Point(p[i], s)))) = KlRat(p[i], q[i])
KlZero == phase = "ops" => \A g \in Both : KlRat(g, g) = RZero
Prod(c) == LET RECURSIVE Go(_) Go(i) == IF i = 0 THEN ROne ELSE RMul(R(c[i]), Go(i - 1)) IN Go(Len(c))
RSq(v) == RMul(v, v)
(* other units: coordinate h is measured in steps of 1 / c[h]                          *)
InUnits(g, c) == [m |-> [h \in 1..d |-> c[h] * g.m[h]], l |-> [i \in 1..d |-> [j \in 1..d |-> c[i] * g.l[i][j]]]]
Units == (phase = "ops" /\ Len(ops) = 1) => \A c \in [1..d -> {1, 2}] : \A g \in Both :
  LET s == InUnits(g, c) IN
  /\ \A i, j \in 1..d : /\ Cov(s)[i][j] = RMul(R(c[i] * c[j]), Cov(g)[i][j])
                          /\ Second(s)[i][j] = RMul(R(c[i] * c[j]), Second(g)[i][j])
                          /\ RMul(R(c[i] * c[j]), Prec(s)[i][j]) = Prec(g)[i][j]
  /\ \A i \in 1..d : RMul(R(c[i]), NMean(s)[i]) = NMean(g)[i]
  /\ Det(s) = RMul(Det(g), RSq(Prod(c)))
  /\ \A n \in 1..Len(x) : Sq(s, [h \in 1..d |-> R(c[h] * x[n][h])]) = Sq(g, RVec(x[n]))
  /\ \A h \in Both : KlRat(s, InUnits(h, c)) = KlRat(g, h)
(* independent copies: two blocks with the same density                                *)
Double(v) == v \o v
Blocks(g) == [m |-> Double(g.m), l |-> [i \in 1..(2 * d) |-> [j \in 1..(2 * d) |->
   IF (i > d) = (j > d) THEN g.l[((i - 1) % d) + 1][((j - 1) % d) + 1] ELSE 0]]]
Copies == (phase = "ops" /\ Len(ops) = 1) => \A g \in Both :
  LET s == Blocks(g) IN
  /\ Det(s) = RSq(Det(g)) /\ NMean(s) = Double(NMean(g))
  /\ \A n \in 1..Len(x) : Sq(s, RVec(Double(x[n]))) = RMul(R(2), Sq(g, RVec(x[n])))
  /\ \A h \in Both : KlRat(s, Blocks(h)) = RMul(R(2), KlRat(g, h))
  /\ \A i, j \in 1..(2 * d) : /\ Cov(s)[i][j] = (IF (i > d) = (j > d) THEN Cov(g)[((i - 1) % d) + 1][((j - 1) % d) + 1] ELSE RZero)
                                /\ Prec(s)[i][j] = (IF (i > d) = (j > d) THEN Prec(g)[((i - 1) % d) + 1][((j - 1) % d) + 1] ELSE RZero)
All == ops[1].p
(* the operations only move the densities of the beginning around                  *)
Conserved == phase = "ops" => \A g \in Both : \E i \in 1..Len(All) : All[i] = g
Values(g) == [m |-> g.m, l |-> g.l, cov |-> Cov(g), np1 |-> NMean(g), np2 |-> Prec(g), det |-> Det(g), second |-> Second(g),
              sq |-> [n \in 1..Len(x) |-> Sq(g, RVec(x[n]))]]
Emit == phase = "done" => PrintT("@@" \o ToJson(
  [d |-> d, k |-> k, diag |-> diag, x |-> x, all |-> [i \in 1..Len(All) |-> Values(All[i])],
   ops |-> Tail(ops), kl |-> [i \in 1..Len(All) |-> [j \in 1..Len(All) |-> KlRat(All[i], All[j])]]]))
===============================================================================
