------------------------------ MODULE Subspace ------------------------------
(* C21: a set of units whose parameters are generated by a (generalised)         *)
(* subspace model.  Unit u has an embedding (one latent vector per sample); an   *)
(* affine map (one per parameter sample) sends it to the super-vector of the      *)
(* unit, which is cut into one slice per density of every covered parameter.      *)
(* With classes, a linear map of the class embedding is added.                    *)
(* Spec side: Gen (what the unit must receive) and Slice (an interval).           *)
(* Implementation side: row-major flattening of units x samples, the transform's  *)
(* output, and the running-offset walk over parameters and rows; the theorems     *)
(* say both give the same slices, which tile the super-vector.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxU, MaxS, MaxK, MaxD, MaxL, MaxA, MaxB, MaxC, MaxOps, NormFirst

VARIABLES cfg, emb, cls, map, mem, stats, next, hist, phase
vars == <<cfg, emb, cls, map, mem, stats, next, hist, phase>>

Null == [mode |-> "none"]
(* -------------------------------------------------------------- parameters *)
(* densities per unit, real and statistics dimensions of one density             *)
NormDim == CASE cfg.fam = "ng" -> 2 * cfg.D [] cfg.fam = "ing" -> cfg.D + 1 [] OTHER -> 2 * cfg.D + (cfg.D * (cfg.D - 1)) \div 2
NormStat == CASE cfg.fam = "ng" -> 2 * cfg.D + 2 [] cfg.fam = "ing" -> cfg.D + 3 [] OTHER -> cfg.D + cfg.D * cfg.D + 2
Norm == [p |-> "n", rows |-> cfg.S * cfg.K, dim |-> NormDim, sdim |-> NormStat]
Wgt == [p |-> "w", rows |-> cfg.S, dim |-> cfg.K - 1, sdim |-> cfg.K]
Params == LET all == IF NormFirst THEN <<Norm, Wgt>> ELSE <<Wgt, Norm>> IN SelectSeq(all, LAMBDA x : x.p \in cfg.cover)
PIdx == 1..Len(Params)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Q == SumTo([i \in PIdx |-> Params[i].rows * Params[i].dim], Len(Params))
(* the interval of row r of parameter i, counted from zero: [From, From + dim)   *)
From(i, r) == SumTo([j \in PIdx |-> Params[j].rows * Params[j].dim], i - 1) + (r - 1) * Params[i].dim
Units == 1..cfg.U
Js == 1..(cfg.A * cfg.B)
SampleA(j) == ((j - 1) \div cfg.B) + 1
SampleB(j) == ((j - 1) % cfg.B) + 1

(* ------------------------------------------------------------------ values *)
(* pseudo random small integers of a value id                                    *)
H(n) == LET m == n % 1009 IN ((m * 73 + (m \div 7) * 29 + ((m * m) % 101)) % 9) - 4
W(m, b, l, q) == H(m * 811 + b * 131 + l * 37 + q)
V(m, b, l, q) == H(m * 787 + b * 113 + l * 41 + q + 5000)
Bias(m, b, q) == H(m * 577 + b * 149 + q + 9000)
E(id, a, l) == H(id * 389 + a * 59 + l * 13 + 3000)
Gen(e, m, u, a, b, q) == SumTo([l \in 1..cfg.L |-> W(m, b, l, q) * E(e[u], a, l)], cfg.L) + Bias(m, b, q)
ClsGen(c, m, k, a, b, q) == SumTo([l \in 1..cfg.M |-> V(m, b, l, q) * E(c[k], a, l)], cfg.M)
Classes == 1..cfg.C
(* what unit u must receive for row r of parameter i: one vector per class and sample *)
Slice(e, c, m, u, i, r) == [k \in Classes |-> [j \in Js |-> [t \in 1..Params[i].dim |->
   Gen(e, m, u, SampleA(j), SampleB(j), From(i, r) + t) + (IF cfg.M = 0 THEN 0 ELSE ClsGen(c, m, k, SampleA(j), SampleB(j), From(i, r) + t))]]]
Generated(e, c, m) == [u \in Units |-> [i \in PIdx |-> [r \in 1..Params[i].rows |-> Slice(e, c, m, u, i, r)]]]

(* ----------------------------------------------- the implementation's walk *)
(* flat sample f of units x A; the transform returns out[f][b]; reshaped to       *)
(* units x (A * B), row-major.  Indices from zero.                                *)
Out(e, m, f, b, q) == Gen(e, m, (f \div cfg.A) + 1, (f % cfg.A) + 1, b + 1, q)
Reshaped(e, m, u, j, q) == LET flat == (u * cfg.A * cfg.B) + j IN Out(e, m, flat \div cfg.B, flat % cfg.B, q)
RECURSIVE Walk(_, _)
Walk(i, idx) == IF i > Len(Params) THEN <<>>
  ELSE LET n == Params[i].rows * Params[i].dim IN
       <<[r \in 1..Params[i].rows |-> [t \in 1..Params[i].dim |-> idx + (r - 1) * Params[i].dim + t]]>> \o Walk(i + 1, idx + n)

(* --------------------------------------------------------------- behaviour *)
Init == cfg = Null /\ emb = <<>> /\ cls = <<>> /\ map = 0 /\ mem = <<>> /\ stats = <<>> /\ next = 1 /\ hist = <<>> /\ phase = "pick"
Covers == {{"n"}, {"w"}, {"n", "w"}}
Pick == phase = "pick" /\ \E f \in {"ng", "ing", "nw"}, U \in 1..MaxU, S \in 1..MaxS, K \in 1..MaxK, D \in 1..MaxD :
  cfg' = [mode |-> "?", fam |-> f, U |-> U, S |-> S, K |-> K, D |-> D] /\ phase' = "pick2"
  /\ UNCHANGED <<emb, cls, map, mem, stats, next, hist>>
Pick2 == phase = "pick2" /\ \E mode \in {"views", "copies"}, cov \in Covers, L \in 1..MaxL, A \in 1..MaxA, B \in 1..MaxB, C \in 1..MaxC, M \in 0..1 :
  /\ (cov = {"w"}) => cfg.K > 1
  /\ (M = 0) <=> (C = 1)
  /\ cfg' = [mode |-> mode, fam |-> cfg.fam, U |-> cfg.U, S |-> cfg.S, K |-> cfg.K, D |-> cfg.D, cover |-> cov,
             L |-> L, A |-> A, B |-> B, C |-> C, M |-> M]
  /\ emb' = [u \in 1..cfg.U |-> u] /\ cls' = [k \in 1..C |-> 20 + k] /\ map' = 1 /\ next' = 50
  /\ mem' = <<>> /\ stats' = [u \in 1..cfg.U |-> [p \in cov |-> 0]]
  /\ phase' = "run" /\ UNCHANGED hist
Run == phase = "run" /\ Len(hist) < MaxOps
(* the models read the embeddings: through update_models, or through the objective *)
Refresh(how) == Run /\ (how = "update" => cfg.M = 0) /\ mem' = Generated(emb, cls, map)
  /\ hist' = Append(hist, [op |-> how, emb |-> emb, cls |-> cls, map |-> map, stats |-> stats, mem |-> mem'])
  /\ UNCHANGED <<cfg, emb, cls, map, stats, next, phase>>
Evaluate == Run /\ cfg.M = 0 /\ mem # <<>> /\ hist' = Append(hist, [op |-> "evaluate", emb |-> emb, cls |-> cls, map |-> map, stats |-> stats, mem |-> mem])
  /\ UNCHANGED <<cfg, emb, cls, map, mem, stats, next, phase>>
Move == Run /\ \E u \in Units : emb' = [emb EXCEPT ![u] = next] /\ next' = next + 1
  /\ UNCHANGED <<cfg, cls, map, mem, stats, hist, phase>>
MoveClass == Run /\ cfg.M > 0 /\ \E k \in Classes : cls' = [cls EXCEPT ![k] = next] /\ next' = next + 1
  /\ UNCHANGED <<cfg, emb, map, mem, stats, hist, phase>>
NewMap == Run /\ map' = next /\ next' = next + 1 /\ UNCHANGED <<cfg, emb, cls, mem, stats, hist, phase>>
Accumulate == Run /\ \E u \in Units, p \in cfg.cover : stats' = [stats EXCEPT ![u][p] = next] /\ next' = next + 1
  /\ UNCHANGED <<cfg, emb, cls, map, mem, hist, phase>>
Finish == phase = "run" /\ Len(hist) = MaxOps /\ phase' = "done" /\ UNCHANGED <<cfg, emb, cls, map, mem, stats, next, hist>>
Next == Pick \/ Pick2 \/ Refresh("update") \/ Refresh("objective") \/ Evaluate \/ Move \/ MoveClass \/ NewMap \/ Accumulate \/ Finish

(* ---------------------------------------------------------------- theorems *)
Picked == phase \in {"run", "done"}
(* slices tile 1..Q without gap or overlap                                       *)
Tile == Picked => LET cells == {<<i, r, t>> \in PIdx \X (1..(cfg.S * cfg.K)) \X (1..NormDim) : r <= Params[i].rows /\ t <= Params[i].dim} IN
  /\ {From(x[1], x[2]) + x[3] : x \in cells} = 1..Q
  /\ Cardinality(cells) = Q
(* the running-offset walk gives the same cells                                  *)
WalkRight == Picked => LET w == Walk(1, 0) IN \A i \in PIdx : \A r \in 1..Params[i].rows : \A t \in 1..Params[i].dim : w[i][r][t] = From(i, r) + t
(* flattening keeps unit and samples apart                                       *)
ReshapeRight == Picked => \A u \in 0..(cfg.U - 1), j \in 0..(cfg.A * cfg.B - 1), q \in {1, Q} :
  Reshaped(emb, map, u, j, q) = Gen(emb, map, u + 1, SampleA(j + 1), SampleB(j + 1), q)
(* a unit's parameters only move with its own embedding (or the shared maps)     *)
Own == (Picked /\ Len(hist) >= 2) => LET a == hist[Len(hist) - 1] b == hist[Len(hist)] IN
  (a.map = b.map /\ a.cls = b.cls /\ a.op # "evaluate" /\ b.op # "evaluate") =>
     \A u \in Units : a.emb[u] = b.emb[u] => a.mem[u] = b.mem[u]
(* --------------------------------------------------------------- emission *)
Maps == {hist[i].map : i \in 1..Len(hist)}
Embs == UNION {{hist[i].emb[u] : u \in Units} \cup {hist[i].cls[k] : k \in Classes} : i \in 1..Len(hist)}
Max2(a, b) == IF a > b THEN a ELSE b
Emit == phase = "done" => PrintT("@@" \o ToJson([cfg |-> cfg, Q |-> Q, params |-> Params, hist |-> hist,
  maps |-> {[id |-> m, w |-> [b \in 1..cfg.B |-> [l \in 1..cfg.L |-> [q \in 1..Q |-> W(m, b, l, q)]]],
             v |-> [b \in 1..cfg.B |-> [l \in 1..cfg.M |-> [q \in 1..Q |-> V(m, b, l, q)]]],
             b |-> [b \in 1..cfg.B |-> [q \in 1..Q |-> Bias(m, b, q)]]] : m \in Maps},
  embs |-> {[id |-> e, x |-> [a \in 1..cfg.A |-> [l \in 1..Max2(cfg.L, cfg.M) |-> E(e, a, l)]]] : e \in Embs}]))
=============================================================================
