------------------------------ MODULE Mixture ------------------------------
(* C18: M mixtures of K components with Dirichlet weights.  Concentrations    *)
(* are integers, so that every expected log weight                            *)
(*     psi(c_k) - psi(sum c) = H(c_k - 1) - H(sum c - 1)                      *)
(* is an exact rational, and so is the log joint of every component.          *)
(* Histories: weights are trained on labelled data (learning rate 1), then    *)
(* unlabelled frames with integer component log-likelihoods are evaluated.    *)
EXTENDS Rat, TLC, Json

CONSTANTS MaxM, MaxK, PriorVals, MaxRounds, MaxFrames, LlhVals, PrintOut
VARIABLES m, k, prior, post, hist, cur, phase
vars == <<m, k, prior, post, hist, cur, phase>>

RECURSIVE H(_)
H(n) == IF n <= 0 THEN RZero ELSE RAdd(H(n - 1), RQ(1, n))
Total(c) == ISumSeq(c)
LogW(c) == [i \in 1..Len(c) |-> RSub(H(c[i] - 1), H(Total(c) - 1))]

Init == m = 0 /\ k = 0 /\ prior = <<>> /\ post = <<>> /\ hist = <<>> /\ cur = <<>> /\ phase = "prior"
Pick == m = 0 /\ \E a \in 1..MaxM, b \in 1..MaxK : m' = a /\ k' = b
        /\ UNCHANGED <<prior, post, hist, cur, phase>>
PriorRow == m > 0 /\ phase = "prior" /\ Len(prior) < m
  /\ \E c \in [1..k -> PriorVals] : prior' = Append(prior, c)
  /\ UNCHANGED <<m, k, post, hist, cur, phase>>
Start == m > 0 /\ Len(prior) = m /\ phase = "prior" /\ phase' = "run" /\ post' = prior
  /\ UNCHANGED <<m, k, prior, hist, cur>>

Rounds == {i \in 1..Len(hist) : hist[i].op = "train"}
(* one labelled frame: mixture and component it is attributed to              *)
Label == phase = "run" /\ Len(cur) < MaxFrames /\ Len(hist) < MaxRounds
  /\ \E a \in 1..m, b \in 1..k : cur' = Append(cur, <<a, b>>)
  /\ UNCHANGED <<m, k, prior, post, hist, phase>>
Train == phase = "run" /\ cur # <<>> /\ Len(cur[1]) = 2 /\ Len(hist) < MaxRounds
  /\ post' = [a \in 1..m |-> [b \in 1..k |-> prior[a][b] + Cardinality({i \in 1..Len(cur) : cur[i] = <<a, b>>})]]
  /\ hist' = Append(hist, [op |-> "train", labels |-> cur, post |-> post'])
  /\ cur' = <<>> /\ UNCHANGED <<m, k, prior, phase>>
Eval == phase = "run" /\ cur = <<>> /\ hist # <<>> /\ phase' = "eval"
  /\ UNCHANGED <<m, k, prior, post, hist, cur>>

(* frames: m * k component log-likelihoods then m outer responsibilities       *)
Put == phase = "eval" /\ Len(cur) < m * k + m /\ Len(hist) < MaxRounds + MaxFrames
  /\ \E v \in IF Len(cur) < m * k THEN {x - 4 : x \in LlhVals} ELSE 0..2 : cur' = Append(cur, v)
  /\ UNCHANGED <<m, k, prior, post, hist, phase>>
Joint(c) == LET w == [a \in 1..m |-> LogW(post[a])]
            IN [a \in 1..m |-> [b \in 1..k |-> RAdd(w[a][b], R(c[(a - 1) * k + b]))]]
(* a frame may be far below or above the others for all components of a mixture: *)
(* its likelihoods underflow or overflow, the responsibilities do not change      *)
Levels == {-1000, 0, 700}
At(c, lv) == [i \in 1..Len(c) |-> IF i <= m * k THEN c[i] + lv[((i - 1) \div k) + 1] ELSE c[i]]
FrameDone == phase = "eval" /\ Len(cur) = m * k + m
 /\ \E lv \in [1..m -> Levels] : LET f == At(cur, lv) IN
  /\ hist' = Append(hist, [op |-> "frame", base |-> cur, lv |-> lv, llh |-> SubSeq(f, 1, m * k), outer |-> SubSeq(f, m * k + 1, m * k + m),
                           joint |-> Joint(f)])
  /\ cur' = <<>> /\ UNCHANGED <<m, k, prior, post, phase>>
Finish == phase = "eval" /\ cur = <<>> /\ Len(hist) > Cardinality(Rounds) + 1 /\ phase' = "done"
  /\ UNCHANGED <<m, k, prior, post, hist, cur>>
Next == Pick \/ PriorRow \/ Start \/ Label \/ Train \/ Eval \/ Put \/ FrameDone \/ Finish

(* theorems: counts are conserved; expected log weights are negative and        *)
(* ordered like the counts                                                      *)
CountsConserved == \A i \in Rounds :
  ISumSeq([a \in 1..m |-> Total(hist[i].post[a]) - Total(prior[a])]) = Len(hist[i].labels)
WeightsOrdered == phase = "done" => \A a \in 1..m : LET w == LogW(post[a]) IN
  /\ \A b \in 1..k : (k = 1 /\ w[b] = RZero) \/ w[b][1] < 0
  /\ \A b, c \in 1..k : post[a][b] <= post[a][c] => RLe(w[b], w[c])
(* the level of a frame moves the log joint of a mixture as a whole             *)
LevelShifts == phase = "done" => \A i \in 1..Len(hist) : hist[i].op = "frame" =>
  \A a \in 1..m : \A b \in 1..k : hist[i].joint[a][b] = RAdd(Joint(hist[i].base)[a][b], R(hist[i].lv[a]))

Emit == (phase = "done" /\ PrintOut) =>
  PrintT("@@" \o ToJson([m |-> m, k |-> k, prior |-> prior, hist |-> hist,
                         logw |-> [a \in 1..m |-> LogW(post[a])]]))
============================================================================
