------------------------------- MODULE Rat -------------------------------
(* Exact rational arithmetic <<num, den>>, den > 0, always in lowest terms. *)
(* TLC integers are 32 bit: models keep numerators and denominators small   *)
(* and TLC reports an error on overflow, so nothing is silently wrong.      *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

Red(n, d) == IF n = 0 THEN <<0, 1>>
             ELSE LET g == Gcd(Abs(n), d) IN <<n \div g, d \div g>>

R(n) == <<n, 1>>
RQ(n, d) == IF d < 0 THEN Red(-n, -d) ELSE Red(n, d)
RZero == <<0, 1>>
ROne == <<1, 1>>

RAdd(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
              ELSE LET g == Gcd(a[2], b[2])
                   IN Red(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN RZero
              ELSE LET g1 == Gcd(Abs(a[1]), b[2])
                       g2 == Gcd(Abs(b[1]), a[2])
                   IN <<(a[1] \div g1) * (b[1] \div g2), (a[2] \div g2) * (b[2] \div g1)>>
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RLt(a, b) == RSub(a, b)[1] < 0
RLe(a, b) == RSub(a, b)[1] <= 0
RPos(a) == a[1] > 0
RIsZero(a) == a[1] = 0

(* sum of op(x) over the elements x of the finite set S *)
RSumOver(S, op(_)) ==
  LET RECURSIVE Go(_)
      Go(T) == IF T = {} THEN RZero
               ELSE LET x == CHOOSE y \in T : TRUE IN RAdd(op(x), Go(T \ {x}))
  IN Go(S)

(* sum of a sequence of rationals *)
RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN RZero ELSE RAdd(Head(s), RSumSeq(Tail(s)))

RECURSIVE ISumSeq(_)
ISumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + ISumSeq(Tail(s))

ISumOver(S, op(_)) ==
  LET RECURSIVE Go(_)
      Go(T) == IF T = {} THEN 0
               ELSE LET x == CHOOSE y \in T : TRUE IN op(x) + Go(T \ {x})
  IN Go(S)


RECURSIVE RPow(_, _)
RPow(a, n) == IF n = 0 THEN ROne ELSE RMul(a, RPow(a, n - 1))
============================================================================
