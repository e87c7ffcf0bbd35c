-------------------------------- MODULE Frames --------------------------------
(* C25: frame arithmetic on integer signals.  A frame is a full window of F     *)
(* samples starting at a multiple of R; the mean of the signal is removed and   *)
(* every frame is pre-emphasised on its own (coefficient p / 2), its first      *)
(* sample by itself.  Values are scaled by 2 N to stay integer.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, MaxF, MaxR, Seeds
VARIABLES c, k, frames, phase
vars == <<c, k, frames, phase>>
X(i) == (((i * 7919) + (i * i * 31) + (c.seed * 104729)) % 41) - 20
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum == SumTo([i \in 1..c.n |-> X(i)], c.n)
Y(i) == (c.n * X(i)) - Sum
Sample(st, i) == (2 * Y(st + i)) - (c.p * (IF i = 1 THEN Y(st + 1) ELSE Y(st + i - 1)))
Init == phase = "pick" /\ c = [n |-> 0] /\ k = 0 /\ frames = <<>>
Pick == phase = "pick" /\ phase' = "cut" /\ UNCHANGED <<k, frames>>
  /\ \E n \in 1..MaxN, f \in 2..MaxF, r \in 1..MaxR, p \in 0..2, s \in 1..Seeds :
       n >= f /\ c' = [n |-> n, f |-> f, r |-> r, p |-> p, seed |-> s]
(* windows slide while they fit                                                *)
Cut == phase = "cut" /\ (k * c.r) + c.f <= c.n
  /\ frames' = Append(frames, [i \in 1..c.f |-> Sample(k * c.r, i)]) /\ k' = k + 1 /\ UNCHANGED <<c, phase>>
Stop == phase = "cut" /\ (k * c.r) + c.f > c.n /\ phase' = "done" /\ UNCHANGED <<c, k, frames>>
Next == Pick \/ Cut \/ Stop
(* the closed form used by the implementation                                  *)
CountRight == phase = "done" => Len(frames) = ((c.n - c.f) \div c.r) + 1
AllWindows == phase = "done" => Len(frames) = Cardinality({j \in 0..c.n : (j * c.r) + c.f <= c.n})
(* a signal that repeats itself (a whole number of steps long) has the same mean   *)
(* and frames that repeat themselves: long signals from one period of frames       *)
P(i) == ((i - 1) % c.n) + 1
TFrame(j) == [i \in 1..c.f |-> (2 * Y(P((j * c.r) + i))) - (c.p * (IF i = 1 THEN Y(P((j * c.r) + 1)) ELSE Y(P((j * c.r) + i - 1))))]
Whole == c.n % c.r = 0
Tiled == (phase = "done" /\ Whole) =>
  /\ SumTo([i \in 1..(2 * c.n) |-> X(P(i))], 2 * c.n) = 2 * Sum
  /\ \A j \in 0..((((2 * c.n) - c.f) \div c.r)) : TFrame(j) = TFrame(j % (c.n \div c.r)) /\ (j < Len(frames) => TFrame(j) = frames[j + 1])
Emit == phase = "done" => PrintT("@@" \o ToJson([c |-> c, x |-> [i \in 1..c.n |-> X(i)], frames |-> frames,
                                                 tile |-> IF Whole THEN [j \in 1..(c.n \div c.r) |-> TFrame(j - 1)] ELSE <<>>]))
===============================================================================
