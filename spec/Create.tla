------------------------------- MODULE Create -------------------------------
(* C29: models as they are created.  A configuration (kind of model, mean,       *)
(* covariance given as a scalar, a diagonal or a matrix, weights, size, strength)  *)
(* determines the prior; the posterior starts at the prior.  The theorems say that *)
(* the created densities have the mean asked for and the precision of the asked    *)
(* covariance as far as the family can express it, and that the strength is the    *)
(* number of observations the prior mean is worth in the updates of Conjugate.tla  *)
EXTENDS Conjugate
CONSTANTS Kinds
VARIABLES cfg
cvars == <<fam, d, rows, prior, post, hist, acc, batches, cur, phase, cfg>>
None == [kind |-> "none"]
Normals == {"full", "diagonal", "isotropic"}
FamOf(k) == CASE k = "full" -> "nw" [] k = "diagonal" -> "ng" [] k = "isotropic" -> "ing" [] k = "gamma" -> "gam" [] OTHER -> "dir"
Strengths == {Half, ROne, R(2), R(5)}
(* covariances as the user gives them                                             *)
Covs(n) == {[form |-> "scalar", v |-> <<<<x>>>>] : x \in {ROne, R(3), Half}}
   \cup {[form |-> "diag", v |-> <<x>>] : x \in [1..n -> {ROne, R(2), RQ(1, 4)}]}
   \cup (IF n = 1 THEN {[form |-> "matrix", v |-> <<<<R(2)>>>>]}
         ELSE {[form |-> "matrix", v |-> <<<<x, o>>, <<o, y>>>>] : x \in {ROne, R(2)}, y \in {R(2), R(3)}, o \in {RZero, Half, R(-1)}})
FullCov(c, n) == [p \in 1..n |-> [q \in 1..n |->
   IF c.form = "matrix" THEN c.v[p][q] ELSE IF p # q THEN RZero ELSE IF c.form = "scalar" THEN c.v[1][1] ELSE c.v[1][p]]]
Biggest(c, n) == LET f == FullCov(c, n) IN CHOOSE x \in {f[i][i] : i \in 1..n} : \A i \in 1..n : RLe(f[i][i], x)
Weights(n) == {w \in [1..n -> {RQ(1, 4), Half, RQ(3, 4), RQ(1, n)}] : RSumSeq(w) = ROne}
(* --------------------------------------------------------- the created prior *)
Made(c) ==
  LET n == c.d s == c.s IN
  CASE c.kind = "full" -> [m |-> c.mean, k |-> s, nu |-> RAdd(s, R(n - 1)),
          wi |-> [p \in 1..n |-> [q \in 1..n |-> RMul(RAdd(s, R(n - 1)), FullCov(c.cov, n)[p][q])]]]
    [] c.kind = "diagonal" -> [m |-> c.mean, k |-> s, a |-> s, b |-> [i \in 1..n |-> RMul(s, FullCov(c.cov, n)[i][i])]]
    [] c.kind = "isotropic" -> [m |-> c.mean, k |-> s, a |-> s, b |-> RMul(s, Biggest(c.cov, n))]
    [] c.kind = "categorical" -> [c |-> [i \in 1..n |-> RMul(s, c.w[i])]]
    [] c.kind = "mixture" -> [c |-> [i \in 1..n |-> RDiv(s, R(n))]]           \* uniform weights
    [] c.kind = "sticks" -> [c |-> <<ROne, s>>]
    [] c.kind = "gamma" -> [a |-> [i \in 1..n |-> s], b |-> [i \in 1..n |-> RDiv(RMul(s, c.mean[i]), R(KnownShape))]]
Configs(k, n, r) ==
  CASE k \in Normals -> [kind : {k}, d : {n}, size : {r}, s : Strengths, mean : [1..n -> {RZero, Half, R(-2)}], cov : Covs(n)]
    [] k = "categorical" -> [kind : {k}, d : {n}, size : {r}, s : Strengths, w : Weights(n)]
    [] k \in {"mixture", "sticks"} -> [kind : {k}, d : {n}, size : {r}, s : Strengths]
    [] k = "gamma" -> [kind : {k}, d : {n}, size : {1}, s : Strengths, mean : [1..n -> {Half, ROne, R(3)}]]
CInit == Init /\ cfg = None
Make == phase = "pick" /\ \E k \in Kinds, n \in 1..MaxD, r \in 1..MaxRows :
  /\ (k = "sticks" => n = 2) /\ (k = "categorical" => n > 1)
  /\ \E c \in Configs(k, n, r) :
     /\ cfg' = c /\ fam' = FamOf(k) /\ d' = n /\ rows' = c.size
     /\ prior' = [i \in 1..c.size |-> Made(c)] /\ post' = prior' /\ phase' = "run"
     /\ acc' = [i \in 1..c.size |-> LET z == Made(c) IN
          [j \in 1..(CASE FamOf(k) = "dir" -> n [] FamOf(k) = "gam" -> 2 * n [] FamOf(k) = "ng" -> 2 * n + 2
                       [] FamOf(k) = "ing" -> n + 3 [] FamOf(k) = "nw" -> n + n * n + 2) |-> RZero]]
  /\ UNCHANGED <<hist, batches, cur>>
End == phase = "run" /\ cur = <<>> /\ batches = <<>> /\ phase' = "done" /\ UNCHANGED <<fam, d, rows, prior, post, hist, acc, batches, cur>>
CNext == Make \/ (cfg.kind # "sticks" /\ Feed /\ UNCHANGED cfg) \/ (EndBatch /\ UNCHANGED cfg) \/ (Step(ROne) /\ UNCHANGED cfg)
         \/ (End /\ UNCHANGED cfg)
(* ------------------------------------------------------------------ theorems *)
Made0 == phase = "run" /\ hist = <<>>
AsAsked == Made0 => \A r \in RowSet : LET v == Value(prior[r]) IN
  CASE cfg.kind = "full" -> v[1] = cfg.mean /\
         (* the expected precision is the inverse of the covariance              *)
         \A p, q \in Dims : RSumSeq([j \in Dims |-> RMul(v[2][(p - 1) * d + j], FullCov(cfg.cov, d)[j][q])]) = IF p = q THEN ROne ELSE RZero
    [] cfg.kind = "diagonal" -> v[1] = cfg.mean /\ \A i \in Dims : RMul(v[2][i], FullCov(cfg.cov, d)[i][i]) = ROne
    [] cfg.kind = "isotropic" -> v[1] = cfg.mean /\ (\A i \in Dims : RLe(RMul(v[2][1], FullCov(cfg.cov, d)[i][i]), ROne))
                                 /\ \E i \in Dims : RMul(v[2][1], FullCov(cfg.cov, d)[i][i]) = ROne
    [] cfg.kind = "categorical" -> v[1] = cfg.w /\ RSumSeq(prior[r].c) = cfg.s
    [] cfg.kind = "mixture" -> (\A i \in Dims : RMul(v[1][i], R(d)) = ROne) /\ RSumSeq(prior[r].c) = cfg.s
    [] cfg.kind = "sticks" -> v[1][1] = RInv(RAdd(ROne, cfg.s))
    [] cfg.kind = "gamma" -> \A i \in Dims : RMul(v[1][i], cfg.mean[i]) = R(KnownShape)      \* mean = shape / rate
(* n observations move the mean by n / (n + strength)                            *)
WorthStrength == (hist # <<>> /\ cfg.kind \in Normals) => LET h == hist[Len(hist)] IN \A r \in RowSet :
  LET X == RowData(h, r) v == h.value[r][1] n == R(Len(X)) IN
  \A i \in Dims : RMul(RSub(v[i], cfg.mean[i]), RAdd(cfg.s, n)) = RSub(R(ISumSeq([t \in 1..Len(X) |-> X[t][i]])), RMul(n, cfg.mean[i]))
WorthCount == (hist # <<>> /\ cfg.kind \in {"categorical", "mixture"}) => LET h == hist[Len(hist)] IN \A r \in RowSet :
  LET X == RowData(h, r) IN RSumSeq(h.post[r].c) = RAdd(cfg.s, R(Len(X)))
CEmit == (phase = "done" /\ PrintOut) =>
   PrintT("@@" \o ToJson([cfg |-> cfg, fam |-> fam, d |-> d, rows |-> rows, prior |-> prior[1], value |-> Value(prior[1]), hist |-> hist]))
=============================================================================
