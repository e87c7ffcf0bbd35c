------------------------------ MODULE Routing ------------------------------
(* C05 / C18: emission densities arranged in a tree of model sets (plain,     *)
(* concatenated, repeated, mixtures), reordered/shared by an ordering of      *)
(* positions, used by an HMM.  Likelihoods and mixture weights are positive   *)
(* integers; responsibilities are exact rationals.                            *)
(* Densities are numbered globally in the order their leaves were created.    *)
EXTENDS Rat, TLC, Json

CONSTANTS MaxLeaves, LeafSizes, MaxSize, MaxDens, MaxPos, MaxFrames, Vals, AllowMix, Modes, PrintOut

VARIABLES stack,    \* trees under construction
          dens,     \* number of densities created
          nmix,     \* number of mixture sets created
          npos,     \* number of states
          order,    \* density set position assigned to each state
          mode, scale,
          frames,   \* complete frames: [lik, resp]
          cur,      \* the frame being chosen, value by value
          phase
vars == <<stack, dens, nmix, npos, order, mode, scale, frames, cur, phase>>

RECURSIVE Size(_)
Size(t) == CASE t.k = "leaf" -> t.n
             [] t.k = "joint" -> ISumSeq([i \in 1..Len(t.parts) |-> Size(t.parts[i])])
             [] t.k = "rep" -> t.r * Size(t.sub)
             [] t.k = "mix" -> t.m

RECURSIVE Depth(_)
Depth(t) == CASE t.k = "leaf" -> 0
             [] t.k = "joint" -> 1 + Depth(t.parts[1])
             [] t.k = "rep" -> 1 + Depth(t.sub)
             [] t.k = "mix" -> 1 + Depth(t.sub)

(* likelihood of every position of the set, as a sequence of rationals        *)
RECURSIVE Lik(_, _)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Lik(t, l) ==
  CASE t.k = "leaf" -> [i \in 1..t.n |-> R(l[t.off + i])]
    [] t.k = "joint" -> Cat([i \in 1..Len(t.parts) |-> Lik(t.parts[i], l)])
    [] t.k = "rep" -> LET s == Lik(t.sub, l) IN Cat([i \in 1..t.r |-> s])
    [] t.k = "mix" -> LET s == Lik(t.sub, l) nc == Size(t.sub) \div t.m
                      IN [j \in 1..t.m |-> RSumSeq([c \in 1..nc |-> RMul(R(t.w[j][c]), s[(j - 1) * nc + c])])]

(* responsibilities r of the positions of the set pushed down to densities:   *)
(* a sequence (one entry per density) of rationals                            *)
RECURSIVE Push(_, _, _)
RECURSIVE AddAll(_)
Zeros == [d \in 1..dens |-> RZero]
AddSeq(a, b) == [d \in 1..dens |-> RAdd(a[d], b[d])]
AddAll(ss) == IF ss = <<>> THEN Zeros ELSE AddSeq(Head(ss), AddAll(Tail(ss)))
(* within-mixture responsibility of component c of mixture j                   *)
SubResps(t, l, r) ==
  LET s == Lik(t.sub, l) nc == Size(t.sub) \div t.m
      z == Lik(t, l)
  IN [p \in 1..(t.m * nc) |-> LET j == (p - 1) \div nc + 1 c == ((p - 1) % nc) + 1
                              IN RMul(r[j], RDiv(RMul(R(t.w[j][c]), s[p]), z[j]))]
RepResps(t, r) == LET n == Size(t.sub) IN
  [p \in 1..n |-> RSumSeq([i \in 1..t.r |-> r[(i - 1) * n + p]])]
Offset(t, i) == ISumSeq([x \in 1..(i - 1) |-> Size(t.parts[x])])
Push(t, l, r) ==
  CASE t.k = "leaf" -> [d \in 1..dens |-> IF d > t.off /\ d <= t.off + t.n THEN r[d - t.off] ELSE RZero]
    [] t.k = "joint" -> AddAll([i \in 1..Len(t.parts) |->
                          Push(t.parts[i], l, SubSeq(r, Offset(t, i) + 1, Offset(t, i) + Size(t.parts[i])))])
    [] t.k = "rep" -> Push(t.sub, l, RepResps(t, r))
    [] t.k = "mix" -> Push(t.sub, l, SubResps(t, l, r))

(* weight statistics of every mixture set, as a sequence of [id, stats]        *)
RECURSIVE MixStats(_, _, _)
MixStats(t, l, r) ==
  CASE t.k = "leaf" -> <<>>
    [] t.k = "joint" -> Cat([i \in 1..Len(t.parts) |->
                          MixStats(t.parts[i], l, SubSeq(r, Offset(t, i) + 1, Offset(t, i) + Size(t.parts[i])))])
    [] t.k = "rep" -> MixStats(t.sub, l, RepResps(t, r))
    [] t.k = "mix" -> <<[id |-> t.id, s |-> SubResps(t, l, r)]>> \o MixStats(t.sub, l, SubResps(t, l, r))

---------------------------------------------------------------------------
Init == stack = <<>> /\ dens = 0 /\ nmix = 0 /\ npos = 0 /\ order = <<>> /\ mode = "none" /\ scale = ROne
        /\ frames = <<>> /\ cur = <<>> /\ phase = "build"

Top == stack[Len(stack)]
Pop(n) == SubSeq(stack, 1, Len(stack) - n)
Leaves == {i \in 1..Len(stack) : stack[i].k = "leaf"}

PushLeaf == phase = "build" /\ Len(stack) < MaxLeaves
  /\ \E n \in LeafSizes : /\ dens + n <= MaxDens
                          /\ stack' = Append(stack, [k |-> "leaf", off |-> dens, n |-> n])
                          /\ dens' = dens + n
  /\ UNCHANGED <<nmix, npos, order, mode, scale, frames, cur, phase>>
MakeJoint == phase = "build" /\ \E n \in 2..Len(stack) :
  LET t == [k |-> "joint", parts |-> SubSeq(stack, Len(stack) - n + 1, Len(stack))]
  IN Size(t) <= MaxSize /\ Depth(t) <= 4 /\ stack' = Append(Pop(n), t)
     /\ UNCHANGED <<dens, nmix, npos, order, mode, scale, frames, cur, phase>>
MakeRep == phase = "build" /\ stack # <<>> /\ Depth(Top) <= 2 /\ \E n \in 2..3 :
  LET t == [k |-> "rep", sub |-> Top, r |-> n]
  IN Size(t) <= MaxSize /\ stack' = Append(Pop(1), t)
     /\ UNCHANGED <<dens, nmix, npos, order, mode, scale, frames, cur, phase>>
Weights == { [a |-> 1, b |-> 1], [a |-> 1, b |-> 2], [a |-> 3, b |-> 1] }
MakeMix == AllowMix /\ phase = "build" /\ stack # <<>> /\ nmix < 2 /\ Depth(Top) <= 2
  /\ \E m \in 1..Size(Top), p \in Weights :
       /\ Size(Top) % m = 0 /\ Size(Top) \div m <= 3
       /\ LET nc == Size(Top) \div m
              t == [k |-> "mix", sub |-> Top, m |-> m, id |-> nmix + 1,
                    w |-> [j \in 1..m |-> [c \in 1..nc |-> IF (j + c) % 2 = 0 THEN p.a ELSE p.b]]]
          IN stack' = Append(Pop(1), t)
  /\ nmix' = nmix + 1 /\ UNCHANGED <<dens, npos, order, mode, scale, frames, cur, phase>>

StartOrder == phase = "build" /\ Len(stack) = 1 /\ phase' = "order"
              /\ npos' \in 1..MaxPos
              /\ UNCHANGED <<stack, dens, nmix, order, mode, scale, frames, cur>>
PutPos == phase = "order" /\ Len(order) < npos /\ \E p \in 1..Size(Top) : order' = Append(order, p)
          /\ UNCHANGED <<stack, dens, nmix, npos, mode, scale, frames, cur, phase>>
StartFrames == phase = "order" /\ Len(order) = npos
  /\ \E m \in Modes, s \in {ROne, R(2), RQ(1, 2)} :
        /\ m = "resps" => s = ROne
        /\ m = "posterior" => s # RQ(1, 2)
        /\ mode' = m /\ scale' = s
  /\ phase' = "frames" /\ UNCHANGED <<stack, dens, nmix, npos, order, frames, cur>>

(* a frame: dens likelihoods, then, by mode, the responsibilities of the states *)
Extra == CASE mode = "resps" -> Len(order) [] mode = "path" -> 1 [] OTHER -> 0
Put == phase = "frames" /\ Len(frames) < MaxFrames /\ Len(cur) < dens + Extra
  /\ \E v \in IF Len(cur) < dens THEN Vals
              ELSE IF mode = "path" THEN 1..Len(order) ELSE 0..2 : cur' = Append(cur, v)
  /\ UNCHANGED <<stack, dens, nmix, npos, order, mode, scale, frames, phase>>

StateLik(l) == LET s == Lik(Top, l) IN [j \in 1..Len(order) |-> s[order[j]]]
Best(l) == LET s == StateLik(l) IN {j \in 1..Len(order) : \A i \in 1..Len(order) : RLe(s[i], s[j])}
FrameOf(c) == [lik |-> SubSeq(c, 1, dens), extra |-> SubSeq(c, dens + 1, Len(c))]
(* responsibility of every state at a frame (states fully connected with unit  *)
(* weights: the frames are independent given the data)                         *)
Resp(f) ==
  CASE mode = "resps" -> [j \in 1..Len(order) |-> R(f.extra[j])]
    [] mode = "path" -> [j \in 1..Len(order) |-> IF j = f.extra[1] THEN scale ELSE RZero]
    [] mode = "viterbi" -> [j \in 1..Len(order) |-> IF j \in Best(f.lik) THEN scale ELSE RZero]
    [] mode = "posterior" ->
         LET s == StateLik(f.lik)
             p == [j \in 1..Len(order) |-> IF scale = R(2) THEN RMul(s[j], s[j]) ELSE s[j]]
             z == RSumSeq(p)
         IN [j \in 1..Len(order) |-> RMul(scale, RDiv(p[j], z))]
(* responsibilities of the positions of the original set: sharing sums them    *)
Routed(f) == LET r == Resp(f) IN
  [p \in 1..Size(Top) |-> RSumSeq([j \in 1..Len(order) |-> IF order[j] = p THEN r[j] ELSE RZero])]

FrameDone == phase = "frames" /\ Len(cur) = dens + Extra /\ Len(frames) < MaxFrames
  /\ (mode = "viterbi" => Cardinality(Best(SubSeq(cur, 1, dens))) = 1)
  /\ frames' = Append(frames, FrameOf(cur)) /\ cur' = <<>>
  /\ UNCHANGED <<stack, dens, nmix, npos, order, mode, scale, phase>>
Drop == phase = "frames" /\ Len(cur) = dens + Extra /\ mode = "viterbi"
  /\ Cardinality(Best(SubSeq(cur, 1, dens))) # 1 /\ cur' = <<>>
  /\ UNCHANGED <<stack, dens, nmix, npos, order, mode, scale, frames, phase>>
Finish == phase = "frames" /\ cur = <<>> /\ Len(frames) = MaxFrames /\ phase' = "done"
  /\ UNCHANGED <<stack, dens, nmix, npos, order, mode, scale, frames, cur>>

Next == PushLeaf \/ MakeJoint \/ MakeRep \/ MakeMix \/ StartOrder \/ PutPos \/ StartFrames
        \/ Put \/ FrameDone \/ Drop \/ Finish

(* ------------------------------------------------------------- theorems *)
(* no responsibility mass is lost or duplicated on the way to the densities    *)
MassConserved == phase = "done" =>
  \A i \in 1..Len(frames) :
     RSumSeq(Push(Top, frames[i].lik, Routed(frames[i]))) = RSumSeq(Resp(frames[i]))
MassIsFrames == (phase = "done" /\ mode # "resps") =>
  \A i \in 1..Len(frames) : RSumSeq(Resp(frames[i])) = scale
(* mixture statistics of a top-level mixture set carry the same mass           *)
MixMass == (phase = "done" /\ Top.k = "mix") =>
  \A i \in 1..Len(frames) :
     RSumSeq(MixStats(Top, frames[i].lik, Routed(frames[i]))[1].s) = RSumSeq(Resp(frames[i]))

Emit == (phase = "done" /\ PrintOut) =>
  PrintT("@@" \o ToJson([tree |-> Top, dens |-> dens, order |-> order, mode |-> mode, scale |-> scale,
     frames |-> [i \in 1..Len(frames) |->
        [lik |-> frames[i].lik, extra |-> frames[i].extra,
         set |-> Lik(Top, frames[i].lik), resp |-> Resp(frames[i]), routed |-> Routed(frames[i]),
         dens |-> Push(Top, frames[i].lik, Routed(frames[i])),
         mix |-> MixStats(Top, frames[i].lik, Routed(frames[i]))]]]))
============================================================================
