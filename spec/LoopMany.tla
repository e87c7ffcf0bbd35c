------------------------------ MODULE LoopMany ------------------------------
(* C09: loops of many units. LoopBuild proves (Closed) that the compiled loop  *)
(* is assembled from blocks that depend on the topologies and group sizes      *)
(* only; here the blocks are evaluated for lists of Sizes units (K patterns of  *)
(* groups, topologies and boundary each).                                      *)
EXTENDS LoopBuild
CONSTANTS Sizes, K

Pattern(k, n, ng) == [i \in 1..n |-> 1 + ((i * i * k + i \div (k + 1)) % ng)]
MInit == \E n \in Sizes, k \in 1..K :
  LET ng == 1 + ((k + n) % 3) IN
  /\ groups = [g \in 1..ng |-> 1 + ((g * g + k + n) % 6)]
  /\ units = Pattern(k, n, ng)
  /\ boundary = IF \A u \in 1..n : units[u] # ((k * 2 + 1) % (ng + 1)) THEN 0 ELSE (k * 2 + 1) % (ng + 1)
  /\ stage = "built"
MNext == UNCHANGED vars
=============================================================================
