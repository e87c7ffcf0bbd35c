--------------------------------- MODULE Vae ---------------------------------
(* C27: the objective of a variational auto-encoder, frame by frame.  The encoder *)
(* gives each frame x a mean A x + a and, per dimension, a standard deviation      *)
(* 2^(B x + b); a sample is mean + deviation * noise.  The decoder gives a sample   *)
(* z the mean W z + w and, per dimension, the standard deviation 2^(c + [z_1 > 0]*e). *)
(* The objective of a frame is                                                      *)
(*   lw * E log p(x | z)  +  kw * (E log prior(z) - E log q(z | x))                 *)
(* where E averages over the samples of that frame.  The specification gives the    *)
(* samples, the average squared distances and the average log2 deviations.  The     *)
(* frames are evaluated in batches, whose objectives add up.                        *)
EXTENDS Rat, TLC, Json
CONSTANTS MaxDX, MaxDZ, MaxS, MaxT, Coef, MaxE
VARIABLES dx, dz, s, net, xs, noise, cuts, phase
vars == <<dx, dz, s, net, xs, noise, cuts, phase>>
Rng == (-Coef)..Coef
RECURSIVE Pow2(_)
Pow2(e) == IF e = 0 THEN ROne ELSE IF e > 0 THEN RMul(R(2), Pow2(e - 1)) ELSE RDiv(Pow2(e + 1), R(2))
IDot(u, v) == ISumSeq([i \in 1..Len(u) |-> u[i] * v[i]])
RDot(u, z) == RSumSeq([i \in 1..Len(u) |-> RMul(R(u[i]), z[i])])
EncMean(n, x) == [i \in 1..dz |-> IDot(n.A[i], x) + n.a[i]]
EncExp(n, x) == [i \in 1..dz |-> LET e == IDot(n.B[i], x) + n.b[i] IN IF e > MaxE THEN MaxE ELSE IF e < -MaxE THEN -MaxE ELSE e]
Sample(n, x, e) == LET m == EncMean(n, x) k == EncExp(n, x) IN [i \in 1..dz |-> RAdd(R(m[i]), RMul(Pow2(k[i]), R(e[i])))]
DecMean(n, z) == [j \in 1..dx |-> RAdd(RDot(n.W[j], z), R(n.w[j]))]
Positive(z) == z[1][1] > 0
DecExp(n, z) == [j \in 1..dx |-> n.c[j] + (IF Positive(z) THEN n.e ELSE 0)]
Sqr(r) == RMul(r, r)
(* squared distance of the frame to the decoded sample                               *)
Dist(n, x, z) == LET m == DecMean(n, z) k == DecExp(n, z)
  IN RSumSeq([j \in 1..dx |-> Sqr(RDiv(RSub(R(x[j]), m[j]), Pow2(k[j])))])
Mean(f) == RDiv(RSumSeq(f), R(Len(f)))
Frame(n, x, es) ==
  LET zs == [h \in 1..Len(es) |-> Sample(n, x, es[h])]
  IN [z |-> zs, dist |-> Mean([h \in 1..Len(es) |-> Dist(n, x, zs[h])]),
      dexp |-> Mean([h \in 1..Len(es) |-> R(ISumSeq(DecExp(n, zs[h])))]),
      nsq |-> Mean([h \in 1..Len(es) |-> R(IDot(es[h], es[h]))]), nexp |-> ISumSeq(EncExp(n, x)),
      gw |-> [j \in 1..dx |-> Mean([h \in 1..Len(es) |-> RDiv(RSub(R(x[j]), DecMean(n, zs[h])[j]), Sqr(Pow2(DecExp(n, zs[h])[j])))])],
      ga |-> [i \in 1..dz |-> Mean([h \in 1..Len(es) |-> RSumSeq([j \in 1..dx |->
               RMul(R(n.W[j][i]), RDiv(RSub(R(x[j]), DecMean(n, zs[h])[j]), Sqr(Pow2(DecExp(n, zs[h])[j]))))])])]]
(* ------------------------------------------------------------------- behaviours *)
Init == dx \in 1..MaxDX /\ dz \in 1..MaxDZ /\ s \in 1..MaxS /\ net = <<>> /\ xs = <<>> /\ noise = <<>> /\ cuts = {} /\ phase = "net"
One(S) == RandomElement(S)
Vec(n, S) == [i \in 1..n |-> One(S)]
Mat(n, m, S) == [i \in 1..n |-> Vec(m, S)]
Build == phase = "net" /\ phase' = "data" /\ UNCHANGED <<dx, dz, s, xs, noise, cuts>>
  /\ net' = [A |-> Mat(dz, dx, Rng), a |-> Vec(dz, Rng), B |-> Mat(dz, dx, -1..1), b |-> Vec(dz, -1..1),
             W |-> Mat(dx, dz, Rng), w |-> Vec(dx, Rng), c |-> Vec(dx, -1..1), e |-> One(0..1)]
(* a frame arrives, its noise is drawn: a value per sample and dimension             *)
Arrive == phase = "data" /\ Len(xs) < MaxT /\ UNCHANGED <<dx, dz, s, net, cuts, phase>>
  /\ xs' = Append(xs, Vec(dx, Rng)) /\ noise' = Append(noise, Mat(s, dz, -2..2))
Cut == phase = "data" /\ Len(xs) > 0 /\ Len(xs) \notin cuts /\ cuts' = cuts \cup {Len(xs)} /\ UNCHANGED <<dx, dz, s, net, xs, noise, phase>>
Stop == phase = "data" /\ Len(xs) > 0 /\ phase' = "done" /\ UNCHANGED <<dx, dz, s, net, xs, noise, cuts>>
Next == Build \/ Arrive \/ Cut \/ Stop
(* --------------------------------------------------------------------- theorems *)
Fr(n) == [t \in 1..Len(xs) |-> Frame(n, xs[t], noise[t])]
Done == phase = "done"
(* the derivatives of E log p(x | z) with respect to the biases are the central       *)
(* differences (the decoder's deviations are kept where the samples cross zero)       *)
Frozen == Done /\ net.e = 0
Half(n, t) == RNeg(RDiv(Frame(n, xs[t], noise[t]).dist, R(2)))
DecGradient == Frozen => \A t \in 1..Len(xs) : \A j \in 1..dx :
  RDiv(RSub(Half([net EXCEPT !.w[j] = @ + 1], t), Half([net EXCEPT !.w[j] = @ - 1], t)), R(2)) = Frame(net, xs[t], noise[t]).gw[j]
EncGradient == Frozen => \A t \in 1..Len(xs) : \A i \in 1..dz :
  RDiv(RSub(Half([net EXCEPT !.a[i] = @ + 1], t), Half([net EXCEPT !.a[i] = @ - 1], t)), R(2)) = Frame(net, xs[t], noise[t]).ga[i]
(* with the corners of the cube as noise the average is the expectation: distance of   *)
(* the decoded mean plus the variance carried through the decoder                      *)
RECURSIVE CornerSeq(_)
CornerSeq(n) == IF n = 0 THEN <<<<>>>> ELSE LET c == CornerSeq(n - 1) IN [i \in 1..(2 * Len(c)) |-> IF i <= Len(c) THEN Append(c[i], 1) ELSE Append(c[i - Len(c)], -1)]
Expectation == Frozen => \A t \in 1..Len(xs) :
  LET f == Frame(net, xs[t], CornerSeq(dz)) k == EncExp(net, xs[t])
      mid == Dist(net, xs[t], [i \in 1..dz |-> R(EncMean(net, xs[t])[i])])
      spread == RSumSeq([j \in 1..dx |-> RSumSeq([i \in 1..dz |-> Sqr(RDiv(RMul(R(net.W[j][i]), Pow2(k[i])), Pow2(net.c[j])))])])
  IN f.dist = RAdd(mid, spread) /\ f.nsq = R(dz)
Emit == Done => PrintT("@@" \o ToJson([dx |-> dx, dz |-> dz, s |-> s, maxe |-> MaxE, net |-> net, xs |-> xs, noise |-> noise, cuts |-> cuts, frames |-> Fr(net)]))
===============================================================================
