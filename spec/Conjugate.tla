----------------------------- MODULE Conjugate -----------------------------
(* C12 (and the exact side of C11/C14): conjugate Bayesian updates in exact    *)
(* rational arithmetic.  A set of Rows independent densities of one family     *)
(* receives batches of data (each datum attributed to one row); a step with    *)
(* learning rate r moves the natural parameters of the posterior to            *)
(* (1-r) old + r (prior + statistics).  The textbook posterior is stated        *)
(* independently (in standard parameters) and proved equal when r = 1.         *)
EXTENDS Rat, TLC, Json

CONSTANTS Families, MaxD, MaxRows, MaxSteps, MaxBatches, MaxData, Rates, PrintOut
(* Families: subset of {"dir","ng","ing","nw","gam"}; Rates: denominators, rate 1/d *)

VARIABLES fam, d, rows, prior, post, hist, acc, batches, cur, phase
vars == <<fam, d, rows, prior, post, hist, acc, batches, cur, phase>>

Half == RQ(1, 2)
RowSet == 1..rows
Dims == 1..d
(* ------------------------------------------------ standard <-> natural *)
ToNat(s) ==
  CASE fam = "dir" -> s.c
    [] fam = "ng" -> [i \in 1..(2 * d + 2) |->
          IF i <= d THEN RMul(s.k, s.m[i])
          ELSE IF i <= 2 * d THEN RAdd(RMul(s.k, RMul(s.m[i - d], s.m[i - d])), RMul(R(2), s.b[i - d]))
          ELSE IF i = 2 * d + 1 THEN s.k ELSE RMul(R(2), s.a)]
    [] fam = "ing" -> [i \in 1..(d + 3) |->
          IF i <= d THEN RMul(s.k, s.m[i])
          ELSE IF i = d + 1 THEN RAdd(RMul(s.k, RSumSeq([j \in Dims |-> RMul(s.m[j], s.m[j])])), RMul(R(2), s.b))
          ELSE IF i = d + 2 THEN s.k ELSE RMul(R(2), s.a)]
    [] fam = "nw" -> [i \in 1..(d + d * d + 2) |->
          IF i <= d THEN RMul(s.k, s.m[i])
          ELSE IF i <= d + d * d
               THEN LET p == (i - d - 1) \div d + 1 q == ((i - d - 1) % d) + 1
                    IN RAdd(s.wi[p][q], RMul(s.k, RMul(s.m[p], s.m[q])))
          ELSE IF i = d + d * d + 1 THEN s.k ELSE s.nu]
    [] fam = "gam" -> [i \in 1..(2 * d) |-> IF i <= d THEN s.b[i] ELSE s.a[i - d]]

FromNat(n) ==
  CASE fam = "dir" -> [c |-> n]
    [] fam = "ng" -> LET k == n[2 * d + 1] m == [i \in Dims |-> RDiv(n[i], k)]
          IN [m |-> m, k |-> k, a |-> RMul(Half, n[2 * d + 2]),
              b |-> [i \in Dims |-> RMul(Half, RSub(n[d + i], RMul(n[i], m[i])))]]
    [] fam = "ing" -> LET k == n[d + 2] m == [i \in Dims |-> RDiv(n[i], k)]
          IN [m |-> m, k |-> k, a |-> RMul(Half, n[d + 3]),
              b |-> RMul(Half, RSub(n[d + 1], RSumSeq([i \in Dims |-> RMul(n[i], m[i])])))]
    [] fam = "nw" -> LET k == n[d + d * d + 1] m == [i \in Dims |-> RDiv(n[i], k)]
          IN [m |-> m, k |-> k, nu |-> n[d + d * d + 2],
              wi |-> [p \in Dims |-> [q \in Dims |-> RSub(n[d + (p - 1) * d + q], RMul(n[p], m[q]))]]]
    [] fam = "gam" -> [b |-> [i \in Dims |-> n[i]], a |-> [i \in Dims |-> n[d + i]]]

(* ------------------------------------------------- sufficient statistics *)
(* a datum is a sequence of d integers (for "dir": one category in 1..d; for   *)
(* "gam" positive values with known shape 3)                                    *)
KnownShape == 3
Stat(x) ==
  CASE fam = "dir" -> [i \in Dims |-> IF x[1] = i THEN ROne ELSE RZero]
    [] fam = "ng" -> [i \in 1..(2 * d + 2) |-> IF i <= d THEN R(x[i]) ELSE IF i <= 2 * d THEN R(x[i - d] * x[i - d]) ELSE ROne]
    [] fam = "ing" -> [i \in 1..(d + 3) |-> IF i <= d THEN R(x[i])
                        ELSE IF i = d + 1 THEN R(ISumSeq([j \in Dims |-> x[j] * x[j]]))
                        ELSE IF i = d + 2 THEN ROne ELSE R(d)]
    [] fam = "nw" -> [i \in 1..(d + d * d + 2) |-> IF i <= d THEN R(x[i])
                        ELSE IF i <= d + d * d THEN R(x[(i - d - 1) \div d + 1] * x[((i - d - 1) % d) + 1]) ELSE ROne]
    [] fam = "gam" -> [i \in 1..(2 * d) |-> IF i <= d THEN R(x[i]) ELSE R(KnownShape)]
VAdd(u, v) == [i \in 1..Len(u) |-> RAdd(u[i], v[i])]
Lerp(r, u, v) == [i \in 1..Len(u) |-> RAdd(RMul(RSub(ROne, r), u[i]), RMul(r, v[i]))]

(* --------------------------------------------- textbook posterior (r = 1) *)
Mean(X, i) == RQ(ISumSeq([t \in 1..Len(X) |-> X[t][i]]), Len(X))
Cov(X, p, q) == RSumSeq([t \in 1..Len(X) |-> RMul(RSub(R(X[t][p]), Mean(X, p)), RSub(R(X[t][q]), Mean(X, q)))])
Textbook(s, X) ==
  IF X = <<>> THEN s ELSE
  LET n == Len(X) IN
  CASE fam = "dir" -> [c |-> [i \in Dims |-> RAdd(s.c[i], R(Cardinality({t \in 1..n : X[t][1] = i})))]]
    [] fam = "gam" -> [a |-> [i \in Dims |-> RAdd(s.a[i], R(n * KnownShape))],
                       b |-> [i \in Dims |-> RAdd(s.b[i], R(ISumSeq([t \in 1..n |-> X[t][i]])))]]
    [] OTHER ->
       LET kn == RAdd(s.k, R(n))
           mn == [i \in Dims |-> RDiv(RAdd(RMul(s.k, s.m[i]), RMul(R(n), Mean(X, i))), kn)]
           sh(p, q) == RMul(RDiv(RMul(s.k, R(n)), kn), RMul(RSub(Mean(X, p), s.m[p]), RSub(Mean(X, q), s.m[q])))
       IN CASE fam = "ng" -> [m |-> mn, k |-> kn, a |-> RAdd(s.a, RQ(n, 2)),
                              b |-> [i \in Dims |-> RAdd(s.b[i], RMul(Half, RAdd(Cov(X, i, i), sh(i, i))))]]
            [] fam = "ing" -> [m |-> mn, k |-> kn, a |-> RAdd(s.a, RQ(n * d, 2)),
                               b |-> RAdd(s.b, RMul(Half, RSumSeq([i \in Dims |-> RAdd(Cov(X, i, i), sh(i, i))])))]
            [] fam = "nw" -> [m |-> mn, k |-> kn, nu |-> RAdd(s.nu, R(n)),
                              wi |-> [p \in Dims |-> [q \in Dims |-> RAdd(s.wi[p][q], RAdd(Cov(X, p, q), sh(p, q)))]]]

(* ------------------------------------------ expected values of a posterior *)
(* weights; rate; mean and precision                                            *)
InvOf(w) == IF d = 1 THEN <<<<RInv(w[1][1])>>>>
            ELSE LET det == RSub(RMul(w[1][1], w[2][2]), RMul(w[1][2], w[2][1])) IN
                 <<<<RDiv(w[2][2], det), RNeg(RDiv(w[1][2], det))>>, <<RNeg(RDiv(w[2][1], det)), RDiv(w[1][1], det)>>>>
Value(s) ==
  CASE fam = "dir" -> <<[i \in Dims |-> RDiv(s.c[i], RSumSeq(s.c))]>>
    [] fam = "gam" -> <<[i \in Dims |-> RDiv(s.a[i], s.b[i])]>>
    [] fam = "ng" -> <<s.m, [i \in Dims |-> RDiv(s.a, s.b[i])]>>
    [] fam = "ing" -> <<s.m, <<RDiv(s.a, s.b)>>>>
    [] fam = "nw" -> <<s.m, LET v == InvOf(s.wi) IN [i \in 1..(d * d) |-> RMul(s.nu, v[(i - 1) \div d + 1][((i - 1) % d) + 1])]>>

(* ------------------------------------------------------------ behaviour *)
Priors ==
  CASE fam = "dir" -> [c : [Dims -> {ROne, RQ(1, 2), R(3)}]]
    [] fam = "ng" -> [m : [Dims -> {RZero, ROne, R(-2)}], k : {ROne, R(2), Half}, a : {ROne, RQ(3, 2)}, b : [Dims -> {ROne, R(2)}]]
    [] fam = "ing" -> [m : [Dims -> {RZero, ROne, R(-2)}], k : {ROne, R(2), Half}, a : {ROne, RQ(3, 2)}, b : {ROne, R(2)}]
    [] fam = "nw" -> [m : [Dims -> {RZero, ROne, R(-2)}], k : {ROne, R(2), Half}, nu : {R(d), R(d + 2)},
                      wi : {[p \in Dims |-> [q \in Dims |-> IF p = q THEN dd ELSE oo]] : dd \in {R(2), R(3)}, oo \in {RZero, ROne, R(-1)}}]
    [] fam = "gam" -> [a : [Dims -> {ROne, R(3)}], b : [Dims -> {ROne, Half, R(2)}]]
Data == CASE fam = "dir" -> {<<i>> : i \in Dims}
          [] fam = "gam" -> [Dims -> 1..3]
          [] OTHER -> [Dims -> -2..2]
ZeroAcc == LET z == [i \in 1..Len(ToNat(prior[1])) |-> RZero] IN [r \in RowSet |-> z]

Init == fam = "none" /\ d = 0 /\ rows = 0 /\ prior = <<>> /\ post = <<>> /\ hist = <<>> /\ acc = <<>>
        /\ batches = <<>> /\ cur = <<>> /\ phase = "pick"
Pick == phase = "pick" /\ \E f \in Families, a \in 1..MaxD, n \in 1..MaxRows :
          fam' = f /\ d' = (IF f = "dir" THEN a + 1 ELSE a) /\ rows' = n /\ phase' = "prior"
          /\ UNCHANGED <<prior, post, hist, acc, batches, cur>>
PriorRow == phase = "prior" /\ Len(prior) < rows /\ \E s \in Priors : prior' = Append(prior, s)
          /\ UNCHANGED <<fam, d, rows, post, hist, acc, batches, cur, phase>>
Start == phase = "prior" /\ Len(prior) = rows /\ post' = prior /\ acc' = ZeroAcc /\ phase' = "run"
          /\ UNCHANGED <<fam, d, rows, prior, hist, batches, cur>>
Total == ISumSeq([i \in 1..Len(batches) |-> Len(batches[i])]) + Len(cur)
Feed == phase = "run" /\ Len(hist) < MaxSteps /\ Len(batches) < MaxBatches /\ Total < MaxData
  /\ \E r \in RowSet, x \in Data :
       /\ cur' = Append(cur, [row |-> r, x |-> x])
       /\ acc' = [acc EXCEPT ![r] = VAdd(@, Stat(x))]
  /\ UNCHANGED <<fam, d, rows, prior, post, hist, batches, phase>>
EndBatch == phase = "run" /\ cur # <<>> /\ batches' = Append(batches, cur) /\ cur' = <<>>
  /\ UNCHANGED <<fam, d, rows, prior, post, hist, acc, phase>>
Step(r) == phase = "run" /\ cur = <<>> /\ batches # <<>>
  /\ post' = [i \in RowSet |-> FromNat(Lerp(r, ToNat(post[i]), VAdd(ToNat(prior[i]), acc[i])))]
  /\ hist' = Append(hist, [batches |-> batches, rate |-> r, post |-> post', value |-> [i \in RowSet |-> Value(post'[i])]])
  /\ acc' = ZeroAcc /\ batches' = <<>>
  /\ UNCHANGED <<fam, d, rows, prior, cur, phase>>
Finish == phase = "run" /\ cur = <<>> /\ batches = <<>> /\ hist # <<>> /\ phase' = "done"
  /\ UNCHANGED <<fam, d, rows, prior, post, hist, acc, batches, cur>>
Next == Pick \/ PriorRow \/ Start \/ Feed \/ EndBatch \/ (\E q \in Rates : Step(RQ(1, q))) \/ Finish

(* ------------------------------------------------------------- theorems *)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RowData(h, r) == LET all == Concat(h.batches) IN
   [i \in 1..Cardinality({t \in 1..Len(all) : all[t].row = r}) |->
      all[CHOOSE t \in 1..Len(all) : all[t].row = r /\ Cardinality({u \in 1..t : all[u].row = r}) = i].x]
RoundTrip == phase \in {"run", "done"} => \A r \in RowSet : FromNat(ToNat(post[r])) = post[r] /\ FromNat(ToNat(prior[r])) = prior[r]
IsTextbook == (hist # <<>> /\ hist[Len(hist)].rate = ROne) =>
   LET h == hist[Len(hist)] IN \A r \in RowSet : h.post[r] = Textbook(prior[r], RowData(h, r))
(* the expected weights, rates and means are the averages the textbook gives     *)
AverageIsRight == (hist # <<>> /\ hist[Len(hist)].rate = ROne) =>
   LET h == hist[Len(hist)] IN \A r \in RowSet :
     LET X == RowData(h, r) v == h.value[r][1] s == prior[r] n == R(Len(X)) IN
     CASE fam = "dir" -> \A i \in Dims : RMul(v[i], RAdd(RSumSeq(s.c), n)) = RAdd(s.c[i], R(Cardinality({t \in 1..Len(X) : X[t][1] = i})))
       [] fam = "gam" -> \A i \in Dims : RMul(v[i], RAdd(s.b[i], R(ISumSeq([t \in 1..Len(X) |-> X[t][i]])))) = RAdd(s.a[i], RMul(n, R(KnownShape)))
       [] OTHER -> \A i \in Dims : RMul(v[i], RAdd(s.k, n)) = RAdd(RMul(s.k, s.m[i]), R(ISumSeq([t \in 1..Len(X) |-> X[t][i]])))
Valid(s) == CASE fam = "dir" -> \A i \in Dims : s.c[i][1] > 0
              [] fam = "ng" -> s.k[1] > 0 /\ s.a[1] > 0 /\ \A i \in Dims : s.b[i][1] > 0
              [] fam = "ing" -> s.k[1] > 0 /\ s.a[1] > 0 /\ s.b[1] > 0
              [] fam = "nw" -> s.k[1] > 0 /\ s.nu[1] > 0 /\ s.wi[1][1][1] > 0
                               /\ (d = 2 => RSub(RMul(s.wi[1][1], s.wi[2][2]), RMul(s.wi[1][2], s.wi[2][1]))[1] > 0)
              [] fam = "gam" -> \A i \in Dims : s.a[i][1] > 0 /\ s.b[i][1] > 0
Proper == phase \in {"run", "done"} => \A r \in RowSet : Valid(post[r])
(* weighing everything (prior and statistics) by w weighs the natural parameters  *)
(* and leaves the expected values alone: the answers for any size of data follow   *)
Weigh(s, w) ==
  LET mul(v) == [i \in Dims |-> RMul(R(w), v[i])] IN
  CASE fam = "dir" -> [c |-> mul(s.c)]
    [] fam = "gam" -> [a |-> mul(s.a), b |-> mul(s.b)]
    [] fam = "ng" -> [m |-> s.m, k |-> RMul(R(w), s.k), a |-> RMul(R(w), s.a), b |-> mul(s.b)]
    [] fam = "ing" -> [m |-> s.m, k |-> RMul(R(w), s.k), a |-> RMul(R(w), s.a), b |-> RMul(R(w), s.b)]
    [] fam = "nw" -> [m |-> s.m, k |-> RMul(R(w), s.k), nu |-> RMul(R(w), s.nu), wi |-> [p \in Dims |-> mul(s.wi[p])]]
(* responsibilities weigh the statistics: parts of an observation add up to it     *)
Parts == phase = "done" => \A x \in Data : \A m \in {2, 8} :
  LET st == Stat(x) part == [i \in 1..Len(st) |-> RMul(RQ(1, m), st[i])] IN
  \A i \in 1..Len(st) : RSumSeq([t \in 1..m |-> part[i]]) = st[i]
Weighted == phase = "done" => \A r \in RowSet : \A w \in {2, 3} :
  LET n == ToNat(post[r]) wn == [i \in 1..Len(n) |-> RMul(R(w), n[i])] IN
  /\ FromNat(wn) = Weigh(post[r], w)
  /\ Value(Weigh(post[r], w)) = Value(post[r])
Emit == (phase = "done" /\ PrintOut) =>
   PrintT("@@" \o ToJson([fam |-> fam, d |-> d, rows |-> rows, prior |-> prior, hist |-> hist]))
============================================================================
