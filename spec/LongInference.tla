---------------------------- MODULE LongInference ----------------------------
(* C03 / C04: hundreds of frames.  A pinch state is added to a model: it is the    *)
(* only possible state at some frames (first and last ones included), enters the   *)
(* model with its initial weights and is reached with its final weights.  The      *)
(* frames between two pinches are a segment: an utterance of HmmInference.         *)
(* Theorem (by brute force on small instances): the paths of the whole are the     *)
(* sequences of the paths of the segments, so totals and best weights multiply and *)
(* the posteriors of the whole are those of its segments.                          *)
EXTENDS HmmInference
CONSTANTS Segments
VARIABLES segs, goal
lvars == <<vars, segs, goal>>
LInit == Init /\ segs = <<>> /\ goal \in 1..T
Choose == (ChooseInit \/ ChooseFinal \/ ChooseRow) /\ UNCHANGED <<segs, goal>>
Hear == Len(frames) < goal /\ Len(segs) < Segments /\ (\E l \in Vec(EmisVals) : Frame(l)) /\ UNCHANGED <<segs, goal>>
Ready == Len(frames) = goal
Again == frames' = <<>> /\ alpha' = <<>> /\ delta' = <<>> /\ goal' \in 1..T /\ UNCHANGED <<init, final, trans, done>>
Close == Ready /\ Evidence > 0 /\ segs' = Append(segs, [frames |-> frames, post |-> Posteriors]) /\ Again
(* nothing explains these frames: they are taken back                               *)
Drop == Ready /\ Evidence = 0 /\ UNCHANGED segs /\ Again
LNext == Choose \/ Hear \/ Close \/ Drop
Over == Len(segs) = Segments
LEmit == Over => PrintT("@@" \o ToJson([init |-> init, final |-> final, trans |-> trans, segs |-> segs]))
(* ------------------------------------------------ theorem on the whole *)
P == S + 1
All == 1..P
RECURSIVE Whole(_)
Whole(k) == IF k = 0 THEN <<0>> ELSE Whole(k - 1) \o [t \in 1..Len(segs[k].frames) |-> k] \o <<0>>
RECURSIVE Start(_)
Start(k) == IF k = 0 THEN 0 ELSE Start(k - 1) + 1 + (IF k = 1 THEN 0 ELSE Len(segs[k - 1].frames))
WTrans(i, j) == CASE i = P /\ j = P -> 0 [] i = P -> init[j] [] j = P -> final[i] [] OTHER -> trans[i][j]
LPaths(w) == {p \in [DOMAIN w -> All] : \A t \in DOMAIN w : (w[t] = 0) = (p[t] = P)}
LEmis(w, t, i) == IF w[t] = 0 THEN 1 ELSE segs[w[t]].frames[t - Start(w[t])][i]
LWeight(w, p) == LET RECURSIVE W(_)
                     W(t) == IF t = 1 THEN 1 ELSE W(t - 1) * WTrans(p[t - 1], p[t]) * LEmis(w, t, p[t])
                 IN W(Len(w))
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE Head(s) * Product(Tail(s))
Others(k) == Product([m \in 1..Len(segs) |-> IF m = k THEN 1 ELSE segs[m].post.z])
Composes == Over =>
  LET w == Whole(Len(segs)) ps == LPaths(w) IN
  /\ ISumOver(ps, LAMBDA p : LWeight(w, p)) = Product([k \in 1..Len(segs) |-> segs[k].post.z])
  /\ \A x \in {LWeight(w, p) : p \in ps} : x <= Product([k \in 1..Len(segs) |-> segs[k].post.best])
  /\ \E p \in ps : LWeight(w, p) = Product([k \in 1..Len(segs) |-> segs[k].post.best])
  /\ \A t \in DOMAIN w : w[t] # 0 => \A i \in St :
        ISumOver({p \in ps : p[t] = i}, LAMBDA p : LWeight(w, p)) = segs[w[t]].post.gamma[t - Start(w[t])][i] * Others(w[t])
============================================================================
