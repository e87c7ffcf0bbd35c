--------------------------- MODULE WideInference ---------------------------
(* C03 / C04: inference over graphs of hundreds of states.  The graph has K lanes *)
(* of L states; a path advances by one position at every frame and may move from  *)
(* a lane to the next one over a cross link.  States are numbered through the     *)
(* affine permutation x -> (a * x + c) mod N with N prime, so that consecutive    *)
(* positions are far apart.  Weights are powers of two (exponents as below).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Primes, Lens
VARIABLES n, len, a, c, entry, cross, bonus, score, t, done
vars == <<n, len, a, c, entry, cross, bonus, score, t, done>>
No == -1000000
Entry == <<0, 3, 1, 6, 2>>
Cross == <<No, No, 0, No, -1, 2, No>>
Bonus == <<0, 4, 1, 9, 2, 6>>
K == n \div len
Lanes == 0..(K - 1)
Id(k, pos) == (a * (k * len + pos) + c) % n
MaxOf(X) == CHOOSE x \in X : \A y \in X : y <= x

(* pseudo-random choices from a small seed keep the number of successors low      *)
Pick(f, s, k) == LET m == (s * 7919 + k * 104729 + k * k * 31) % 1009 IN f[(m % Len(f)) + 1]
Init == n = 0 /\ len = 0 /\ a = 0 /\ c = 0 /\ entry = <<>> /\ cross = <<>> /\ bonus = <<>> /\ score = <<>> /\ t = 0 /\ done = FALSE
Choose == n = 0 /\ \E p \in Primes, l \in Lens, m \in {2, 37, 64, 89}, o \in {0, 5, 50} : p \div l >= 2
  /\ n' = p /\ len' = l /\ a' = m /\ c' = o /\ UNCHANGED <<entry, cross, bonus, score, t, done>>
(* weight of entering each lane, of the cross link after each position, of a lane at its last frame *)
Weights == n > 0 /\ entry = <<>> /\ \E s \in 1..6, x \in BOOLEAN :
  /\ entry' = [k \in Lanes |-> Pick(Entry, s, k)]
  /\ cross' = IF x THEN [k \in Lanes |-> [q \in 0..(len - 2) |-> Pick(Cross, s + 3, k * len + q)]] ELSE [k \in Lanes |-> [q \in 0..(len - 2) |-> No]]
  /\ bonus' = [k \in Lanes |-> Pick(Bonus, s + 11, k)]
  /\ score' = entry' /\ t' = 0 /\ UNCHANGED <<n, len, a, c, done>>
Plus(x, y) == IF x = No \/ y = No THEN No ELSE x + y
Two(x, y) == IF x > y THEN x ELSE y
Step == entry # <<>> /\ t < len - 1 /\ t' = t + 1
  /\ score' = [k \in Lanes |-> Two(score[k], IF k = 0 THEN No ELSE Plus(score[k - 1], cross[k - 1][t]))]
  /\ UNCHANGED <<n, len, a, c, entry, cross, bonus, done>>
Finish == entry # <<>> /\ t = len - 1 /\ ~done /\ done' = TRUE /\ UNCHANGED <<n, len, a, c, entry, cross, bonus, score, t>>
Next == Choose \/ Weights \/ Step \/ Finish
Best == MaxOf({Plus(score[k], bonus[k]) : k \in Lanes})
(* every lane keeps its own states; without cross links the paths are the lanes   *)
IdsDistinct == (n > 0 /\ t = 0) => Cardinality({Id(k, q) : k \in Lanes, q \in 0..(len - 1)}) = K * len
NoCross == done => ((\A k \in Lanes : \A q \in 0..(len - 2) : cross[k][q] = No) => \A k \in Lanes : score[k] = entry[k])
Monotone == done => \A k \in Lanes : score[k] >= entry[k]
Emit == done => PrintT("@@" \o ToJson([n |-> n, len |-> len, ids |-> [k \in 1..K |-> [q \in 1..len |-> Id(k - 1, q - 1)]],
   entry |-> [k \in 1..K |-> entry[k - 1]], cross |-> [k \in 1..K |-> [q \in 1..(len - 1) |-> cross[k - 1][q - 1]]],
   bonus |-> [k \in 1..K |-> bonus[k - 1]], best |-> Best]))
=============================================================================
