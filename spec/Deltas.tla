-------------------------------- MODULE Deltas --------------------------------
(* C25: derivatives of features, order after order: regression over a context   *)
(* of w frames on each side, edge frames repeated.                              *)
EXTENDS Rat, Sequences, TLC, Json
CONSTANTS MaxT, MaxOrders, MaxW, Dims, Seeds
VARIABLES c, wins, seqs, phase
vars == <<c, wins, seqs, phase>>
X(t, d) == (((t * 7919) + (d * 389) + (c.seed * 104729) + (t * t * d)) % 13) - 6
Clamp(t, n) == IF t < 1 THEN 1 ELSE IF t > n THEN n ELSE t
RECURSIVE Acc(_, _, _, _, _)
(* sum of n * (x[t + n] - x[t - n]) *)
Acc(x, t, d, w, n) == IF n = 0 THEN RZero ELSE
  RAdd(RMul(R(n), RSub(x[Clamp(t + n, Len(x))][d], x[Clamp(t - n, Len(x))][d])), Acc(x, t, d, w, n - 1))
RECURSIVE Sq(_)
Sq(n) == IF n = 0 THEN 0 ELSE (n * n) + Sq(n - 1)
Delta(x, w) == [t \in 1..Len(x) |-> [d \in 1..Len(x[1]) |-> RDiv(Acc(x, t, d, w, w), R(4 * Sq(w)))]]
Init == /\ phase = "run" /\ wins = <<>>
        /\ \E n \in 1..MaxT, d \in Dims, s \in 1..Seeds : c = [t |-> n, d |-> d, seed |-> s]
        /\ seqs = <<[t \in 1..c.t |-> [d \in 1..c.d |-> R(X(t, d))]]>>
Derive(w) == phase = "run" /\ Len(wins) < MaxOrders /\ wins' = Append(wins, w) /\ seqs' = Append(seqs, Delta(seqs[Len(seqs)], w)) /\ UNCHANGED <<c, phase>>
Stop == phase = "run" /\ phase' = "done" /\ UNCHANGED <<c, wins, seqs>>
Next == (\E w \in 1..MaxW : Derive(w)) \/ Stop
(* constant features have no slope; a single frame neither                      *)
Flat == (phase = "run" /\ c.t = 1) => \A k \in 2..Len(seqs) : \A d \in 1..c.d : seqs[k][1][d] = RZero
(* the slope of a ramp away from the edges is half its step at every context    *)
Ramp == phase = "run" /\ Len(wins) = 0 => \A w \in 1..MaxW :
  LET x == [t \in 1..(2 * MaxW + 1) |-> <<R(3 * t)>>] IN Delta(x, w)[MaxW + 1][1] = RDiv(R(3), R(2))
Emit == phase = "done" => PrintT("@@" \o ToJson([c |-> c, wins |-> wins, seqs |-> seqs]))
===============================================================================
