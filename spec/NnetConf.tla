------------------------------ MODULE NnetConf ------------------------------
(* C22: networks described by configuration: blocks of elements, each with an  *)
(* optional residual connection; declared sequence, sizes and parameters.      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxBlocks, MaxElems, Dims, Acts
VARIABLES blocks, cur, din, d, bin, phase
vars == <<blocks, cur, din, d, bin, phase>>
Init == blocks = <<>> /\ cur = <<>> /\ din \in Dims /\ d = din /\ bin = din /\ phase = "elems"
Linear(o, b) == phase = "elems" /\ Len(cur) < MaxElems /\ cur' = Append(cur, [kind |-> "Linear", i |-> d, o |-> o, bias |-> b]) /\ d' = o /\ UNCHANGED <<blocks, din, bin, phase>>
Act(a) == phase = "elems" /\ Len(cur) < MaxElems /\ cur' = Append(cur, [kind |-> a, i |-> d, o |-> d, bias |-> FALSE]) /\ UNCHANGED <<blocks, din, d, bin, phase>>
(* residual: none, identity (same size) or linear                              *)
Close(r) == phase = "elems" /\ cur # <<>> /\ Len(blocks) < MaxBlocks /\ (r = "IdentityLayer" => bin = d)
  /\ blocks' = Append(blocks, [elems |-> cur, res |-> r, i |-> bin, o |-> d]) /\ cur' = <<>> /\ bin' = d /\ UNCHANGED <<din, d, phase>>
Done == phase = "elems" /\ cur = <<>> /\ blocks # <<>> /\ phase' = "done" /\ UNCHANGED <<blocks, cur, din, d, bin>>
Next == (\E o \in Dims, b \in BOOLEAN : Linear(o, b)) \/ (\E a \in Acts : Act(a)) \/ (\E r \in {"none", "IdentityLayer", "Linear"} : Close(r)) \/ Done
(* sizes chain through the network                                             *)
Chain == \A k \in 1..Len(blocks) : /\ blocks[k].i = (IF k = 1 THEN din ELSE blocks[k - 1].o)
  /\ blocks[k].elems[1].i = blocks[k].i /\ blocks[k].elems[Len(blocks[k].elems)].o = blocks[k].o
  /\ \A m \in 2..Len(blocks[k].elems) : blocks[k].elems[m].i = blocks[k].elems[m - 1].o
(* number of trainable values the configuration declares                        *)
RECURSIVE SumElems(_, _)
SumElems(es, m) == IF m > Len(es) THEN 0 ELSE (IF es[m].kind = "Linear" THEN (es[m].i * es[m].o) + (IF es[m].bias THEN es[m].o ELSE 0) ELSE 0) + SumElems(es, m + 1)
RECURSIVE Count(_)
Count(k) == IF k > Len(blocks) THEN 0 ELSE SumElems(blocks[k].elems, 1) + (IF blocks[k].res = "Linear" THEN (blocks[k].i * blocks[k].o) + blocks[k].o ELSE 0) + Count(k + 1)
Emit == phase = "done" => PrintT("@@" \o ToJson([din |-> din, dout |-> d, blocks |-> blocks, count |-> Count(1)]))
===============================================================================
