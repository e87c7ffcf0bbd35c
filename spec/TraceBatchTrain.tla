-------------------------- MODULE TraceBatchTrain ---------------------------
(* Trace validation for C16: recorded runs of the training command (the order    *)
(* in which the utterances were visited) must be behaviours of BatchTrain; the    *)
(* final posterior of each accepted run is printed for comparison.                *)
EXTENDS BatchTrain

Traces == JsonDeserialize("traces.json")
VARIABLES tr, pos
TInit == \E t \in 1..Len(Traces) :
  /\ tr = t /\ pos = 1
  /\ groups = Traces[t].groups /\ utts = Traces[t].utts /\ bsize = Traces[t].bsize /\ rate0 = Traces[t].rate
  /\ epochs = Traces[t].epochs /\ post = Prior(Len(groups)) /\ upd = 0 /\ order = <<>> /\ pending = <<>> /\ hist = <<>>
  /\ stage = (IF epochs = 0 THEN "done" ELSE "run")
TNext == /\ pos <= Len(Traces[tr].visits) /\ Visit(Traces[tr].visits[pos]) /\ pos' = pos + 1 /\ UNCHANGED tr
Accepted == (stage = "done" /\ pos = Len(Traces[tr].visits) + 1) => PrintT("@@" \o ToJson([t |-> tr, post |-> post, upd |-> upd]))
=============================================================================
