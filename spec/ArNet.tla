-------------------------------- MODULE ArNet --------------------------------
(* C22: dependencies through a masked network.  Hidden unit i of a layer with  *)
(* budget b may see everything of order <= b; the output of a coordinate of    *)
(* order o may see hidden units of budget < o.  Networks live on: training,    *)
(* saving and casting never open a connection.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxDim, MaxDepth, MaxWidth, MaxFlow, MaxOps
VARIABLES dim, order, layers, flow, hist, phase
vars == <<dim, order, layers, flow, hist, phase>>

Perms(n) == {p \in [1..n -> 0..(n - 1)] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Init == dim \in 2..MaxDim /\ order \in Perms(dim) /\ layers = <<>> /\ flow \in 0..MaxFlow /\ hist = <<>> /\ phase = "grow"
Add(w) == phase = "grow" /\ Len(layers) < MaxDepth
  /\ \E c \in [1..w -> 0..(dim - 2)] : layers' = Append(layers, c)
  /\ UNCHANGED <<dim, order, flow, hist, phase>>
Ready == phase = "grow" /\ layers # <<>> /\ phase' = "run" /\ UNCHANGED <<dim, order, layers, flow, hist>>
Op(o) == phase = "run" /\ Len(hist) < MaxOps /\ hist' = Append(hist, o) /\ UNCHANGED <<dim, order, layers, flow, phase>>
Stop == phase = "run" /\ Len(hist) = MaxOps /\ phase' = "done" /\ UNCHANGED <<dim, order, layers, flow, hist>>
Next == (\E w \in 1..MaxWidth : Add(w)) \/ Ready \/ (\E o \in {"train", "save", "cast", "copy"} : Op(o)) \/ Stop

Dom(c) == DOMAIN c
Hidden(prev, c) == [i \in Dom(c) |-> [j \in Dom(prev) |-> c[i] >= prev[j]]]
Final(c) == [d \in 1..dim |-> [i \in Dom(c) |-> order[d] > c[i]]]
Prev(k) == IF k = 1 THEN order ELSE layers[k - 1]
(* hidden unit i of layer k depends on input j through an open path             *)
RECURSIVE Reach(_, _, _)
Reach(k, i, j) == IF k = 0 THEN i = j ELSE
  \E m \in Dom(IF k = 1 THEN order ELSE layers[k - 1]) : Hidden(Prev(k), layers[k])[i][m] /\ Reach(k - 1, m, j)
K == Len(layers)
Dep(d, j) == \E i \in Dom(layers[K]) : Final(layers[K])[d][i] /\ Reach(K, i, j)
(* conditioning variables enter every unit of the first layer                   *)
RECURSIVE FromFirst(_, _, _)
FromFirst(k, i, f) == IF k = 1 THEN i = f ELSE \E m \in Dom(layers[k - 1]) : Hidden(Prev(k), layers[k])[i][m] /\ FromFirst(k - 1, m, f)
DepFlow(d) == flow > 0 /\ \E i \in Dom(layers[K]) : Final(layers[K])[d][i] /\ \E f \in Dom(layers[1]) : FromFirst(K, i, f)

Built == phase # "grow"
(* the guarantee                                                                *)
Causal == Built => \A d, j \in 1..dim : Dep(d, j) => order[j] < order[d]
FirstIsFree == Built => \A d \in 1..dim : order[d] = 0 => \A j \in 1..dim : ~Dep(d, j)
(* depth never opens a path: a deeper network sees no more than its first layer allows *)
Budget == Built => \A i \in Dom(layers[K]), j \in 1..dim : Reach(K, i, j) => order[j] <= layers[K][i]
(* a last layer with every budget on top of one with every budget uses everything *)
Complete == (Built /\ \A k \in 1..K : {layers[k][i] : i \in Dom(layers[k])} = 0..(dim - 2))
   => \A d, j \in 1..dim : order[j] < order[d] => Dep(d, j)
B(x) == IF x THEN 1 ELSE 0
Emit == phase = "done" => PrintT("@@" \o ToJson([dim |-> dim, order |-> order, layers |-> layers, flow |-> flow, hist |-> hist,
  masks |-> [k \in 1..K |-> [i \in Dom(layers[k]) |-> [j \in Dom(Prev(k)) |-> B(Hidden(Prev(k), layers[k])[i][j])]]],
  final |-> [d \in 1..dim |-> [i \in Dom(layers[K]) |-> B(Final(layers[K])[d][i])]],
  dep |-> [d \in 1..dim |-> [j \in 1..dim |-> B(Dep(d, j))]], depflow |-> [d \in 1..dim |-> B(DepFlow(d))]]))
===============================================================================
