---------------------------- MODULE HmmInference ----------------------------
(* C03 / C04: inference over a compiled graph, in exact integer arithmetic.   *)
(* A model (initial, final and transition weights) is chosen row by row, then *)
(* frames of emission likelihoods arrive one at a time; the forward messages  *)
(* and the Viterbi scores are updated at every frame (the two recursions of   *)
(* the code).  All weights are small integers: posteriors are ratios of path  *)
(* sums, so a common scale cancels.                                           *)
EXTENDS Rat, TLC, Json

CONSTANTS S,          \* number of states
          T,          \* maximum number of frames
          InitVals, FinalVals, TransVals, EmisVals,
          PrintOut

VARIABLES init, final, trans, frames, alpha, delta, done
vars == <<init, final, trans, frames, alpha, delta, done>>

St == 1..S
Vec(V) == [St -> V]
NonZero(v) == \E i \in St : v[i] > 0

Init == init = <<>> /\ final = <<>> /\ trans = <<>> /\ frames = <<>>
        /\ alpha = <<>> /\ delta = <<>> /\ done = FALSE

ChooseInit == init = <<>> /\ \E v \in Vec(InitVals) : NonZero(v) /\ init' = v
              /\ UNCHANGED <<final, trans, frames, alpha, delta, done>>
ChooseFinal == init # <<>> /\ final = <<>> /\ \E v \in Vec(FinalVals) : NonZero(v) /\ final' = v
              /\ UNCHANGED <<init, trans, frames, alpha, delta, done>>
ChooseRow == final # <<>> /\ Len(trans) < S /\ \E v \in Vec(TransVals) : trans' = Append(trans, v)
              /\ UNCHANGED <<init, final, frames, alpha, delta, done>>

Sum(f) == ISumOver(DOMAIN f, LAMBDA i : f[i])
Max(f) == LET m == {f[i] : i \in DOMAIN f} IN CHOOSE x \in m : \A y \in m : y <= x

(* one frame: the forward and the Viterbi recursion                           *)
Frame(l) ==
  /\ Len(trans) = S /\ Len(frames) < T /\ ~done
  /\ frames' = Append(frames, l)
  /\ IF frames = <<>>
     THEN /\ alpha' = <<[j \in St |-> init[j] * l[j]]>>
          /\ delta' = <<[j \in St |-> init[j] * l[j]]>>
     ELSE LET a == alpha[Len(alpha)] d == delta[Len(delta)]
          IN /\ alpha' = Append(alpha, [j \in St |-> l[j] * Sum([i \in St |-> a[i] * trans[i][j]])])
             /\ delta' = Append(delta, [j \in St |-> l[j] * Max([i \in St |-> d[i] * trans[i][j]])])
  /\ UNCHANGED <<init, final, trans, done>>

Evidence == IF frames = <<>> THEN 0
            ELSE Sum([i \in St |-> alpha[Len(alpha)][i] * final[i]])
BestScore == IF frames = <<>> THEN 0
             ELSE Max([i \in St |-> delta[Len(delta)][i] * final[i]])

Finish == frames # <<>> /\ ~done /\ Evidence > 0 /\ done' = TRUE
          /\ UNCHANGED <<init, final, trans, frames, alpha, delta>>

Next == ChooseInit \/ ChooseFinal \/ ChooseRow \/ (\E l \in Vec(EmisVals) : Frame(l)) \/ Finish

N == Len(frames)
RECURSIVE Beta(_, _)
Beta(t, i) == IF t = N THEN final[i]
              ELSE Sum([j \in St |-> trans[i][j] * frames[t + 1][j] * Beta(t + 1, j)])

BetaTable == [t \in 1..N |-> [i \in St |-> Beta(t, i)]]

Posteriors ==
  LET b == BetaTable IN
  [z |-> Evidence,
   gamma |-> [t \in 1..N |-> [i \in St |-> alpha[t][i] * b[t][i]]],
   xi |-> [t \in 1..(N - 1) |-> [i \in St |-> [j \in St |->
              alpha[t][i] * trans[i][j] * frames[t + 1][j] * b[t + 1][j]]]],
   best |-> BestScore]

Emit == (done /\ PrintOut) =>
          PrintT("@@" \o ToJson([init |-> init, final |-> final, trans |-> trans, frames |-> frames,
                                 post |-> Posteriors]))

(* ------------------------------------------------ theorems about the spec *)
(* brute force over all complete paths                                        *)
Weight(p) == LET RECURSIVE W(_)
                 W(t) == IF t = 1 THEN init[p[1]] * frames[1][p[1]]
                         ELSE W(t - 1) * trans[p[t - 1]][p[t]] * frames[t][p[t]]
             IN W(N) * final[p[N]]
AllPaths == [1..N -> St]
Marginals == done =>
  LET post == Posteriors IN
  /\ post.z = ISumOver(AllPaths, LAMBDA p : Weight(p))
  /\ \A t \in 1..N, i \in St : post.gamma[t][i] = ISumOver({p \in AllPaths : p[t] = i}, LAMBDA p : Weight(p))
  /\ \A t \in 1..(N - 1), i, j \in St :
        post.xi[t][i][j] = ISumOver({p \in AllPaths : p[t] = i /\ p[t + 1] = j}, LAMBDA p : Weight(p))
RowsSumToOne == done =>
  LET post == Posteriors IN
  /\ \A t \in 1..N : Sum(post.gamma[t]) = post.z
  /\ \A t \in 1..(N - 1) : Sum([i \in St |-> Sum(post.xi[t][i])]) = post.z
  /\ \A t \in 1..(N - 1), i \in St : Sum(post.xi[t][i]) = post.gamma[t][i]
  /\ \A t \in 1..(N - 1), j \in St : Sum([i \in St |-> post.xi[t][i][j]]) = post.gamma[t + 1][j]
ViterbiOptimal == done =>
  LET w == {Weight(p) : p \in AllPaths} IN BestScore \in w /\ \A x \in w : x <= BestScore
============================================================================
