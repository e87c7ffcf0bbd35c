---------------------------- MODULE TraceDataset ----------------------------
(* Trace validation for C17: recorded calls with the results of the real data     *)
(* set must be a behaviour of Dataset.                                            *)
EXTENDS Dataset
Traces == JsonDeserialize("traces.json")
VARIABLES tr, pos
TInit == \E t \in 1..Len(Traces) : /\ tr = t /\ pos = 1 /\ utts = Traces[t].utts /\ cur = <<>> /\ iters = <<>> /\ hist = <<>> /\ stage = "run"
E == Traces[tr].calls[pos]
TNext == /\ pos <= Len(Traces[tr].calls) /\ pos' = pos + 1 /\ UNCHANGED tr
         /\ CASE E.op = "iter" -> NewIter(E.mode)
              [] E.op = "next" -> NextCall(E.it, E.res)
              [] E.op = "get" -> Get(E.key, E.res)
              [] E.op = "len" -> LenCall(E.res)
              [] E.op = "size" -> SizeCall(E.res)
              [] E.op = "reload" -> Reload(E.mode)
Accepted == (pos = Len(Traces[tr].calls) + 1) => PrintT("@@" \o ToJson([t |-> tr]))
=============================================================================
