-------------------------- MODULE ScaledInference --------------------------
(* C03 / C04: inference when the weights differ by many orders of magnitude.     *)
(* Every weight is a power of two (or zero); a model is chosen row by row and     *)
(* frames arrive one at a time, as in HmmInference.  The Viterbi recursion runs   *)
(* on the exponents.  Path sums are exact up to the terms more than Digits bits   *)
(* below the best path, which are dropped (their mass is below NPaths/2^Digits).  *)
(* A value 0 means "impossible", v > 0 is the weight 2^(v - Mid).                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS S, T, Mid, Digits, InitVals, FinalVals, TransVals, EmisVals
VARIABLES init, final, trans, frames, delta, done
vars == <<init, final, trans, frames, delta, done>>

St == 1..S
No == -1000000
Exp(v) == IF v = 0 THEN No ELSE v - Mid
Plus(a, b) == IF a = No \/ b = No THEN No ELSE a + b
MaxOf(X) == CHOOSE x \in X : \A y \in X : y <= x
Vec(V) == [St -> V]
Some(v) == \E i \in St : v[i] > 0
N == Len(frames)

Init == init = <<>> /\ final = <<>> /\ trans = <<>> /\ frames = <<>> /\ delta = <<>> /\ done = FALSE
ChooseInit == init = <<>> /\ \E v \in Vec(InitVals) : Some(v) /\ init' = v /\ UNCHANGED <<final, trans, frames, delta, done>>
ChooseFinal == init # <<>> /\ final = <<>> /\ \E v \in Vec(FinalVals) : Some(v) /\ final' = v
  /\ UNCHANGED <<init, trans, frames, delta, done>>
ChooseRow == final # <<>> /\ Len(trans) < S /\ \E v \in Vec(TransVals) : trans' = Append(trans, v)
  /\ UNCHANGED <<init, final, frames, delta, done>>
Frame(l) == Len(trans) = S /\ N < T /\ ~done /\ frames' = Append(frames, l)
  /\ delta' = [j \in St |-> Plus(Exp(l[j]), IF frames = <<>> THEN Exp(init[j]) ELSE MaxOf({Plus(delta[i], Exp(trans[i][j])) : i \in St}))]
  /\ UNCHANGED <<init, final, trans, done>>
Best == MaxOf({Plus(delta[i], Exp(final[i])) : i \in St})
Finish == N > 0 /\ ~done /\ Best # No /\ done' = TRUE /\ UNCHANGED <<init, final, trans, frames, delta>>
Next == ChooseInit \/ ChooseFinal \/ ChooseRow \/ (\E l \in Vec(EmisVals) : Frame(l)) \/ Finish

RECURSIVE WeightTo(_, _)
WeightTo(p, t) == IF t = 1 THEN Plus(Exp(init[p[1]]), Exp(frames[1][p[1]]))
                  ELSE Plus(WeightTo(p, t - 1), Plus(Exp(trans[p[t - 1]][p[t]]), Exp(frames[t][p[t]])))
Weight(p) == Plus(WeightTo(p, N), Exp(final[p[N]]))
AllPaths == [1..N -> St]
Pow == [i \in 0..Digits |-> 2 ^ i]
(* the paths that count, with their weight in units of 2^(Best - Digits)          *)
Kept == LET b == Best IN {<<p, Pow[Digits - (b - Weight(p))]>> : p \in {q \in AllPaths : Weight(q) # No /\ b - Weight(q) <= Digits}}
RECURSIVE Total(_)
Total(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE y \in X : TRUE IN x[2] + Total(X \ {x})
Posteriors == LET k == Kept IN
  [z |-> Total(k), exp |-> Best - Digits,
   gamma |-> [t \in 1..N |-> [i \in St |-> Total({x \in k : x[1][t] = i})]],
   xi |-> [t \in 1..(N - 1) |-> [i \in St |-> [j \in St |-> Total({x \in k : x[1][t] = i /\ x[1][t + 1] = j})]]],
   best |-> {x[1] : x \in {y \in k : y[2] = Pow[Digits]}}]

(* theorems: the recursion on exponents finds the best path; the sums are consistent *)
ViterbiOptimal == done => /\ \E p \in AllPaths : Weight(p) = Best
                          /\ \A p \in AllPaths : Weight(p) <= Best
Consistent == done => LET post == Posteriors Sum(f) == Total({<<i, f[i]>> : i \in DOMAIN f}) IN
  /\ \A t \in 1..N : Sum(post.gamma[t]) = post.z
  /\ \A t \in 1..(N - 1), i \in St : Sum(post.xi[t][i]) = post.gamma[t][i]
  /\ post.z >= Pow[Digits] /\ post.best # {}
Emit == done => PrintT("@@" \o ToJson([init |-> init, final |-> final, trans |-> trans, frames |-> frames, post |-> Posteriors]))
=============================================================================
