----------------------------- MODULE BatchTrain -----------------------------
(* C16: training on a single machine: every epoch visits each utterance once,   *)
(* in any order; the model is updated after every complete batch and after the   *)
(* remaining incomplete one.                                                     *)
EXTENDS CountModel, Json

CONSTANTS MaxUtts, MaxNf, MaxP, MaxG, MaxEpochs, Rates

VARIABLES groups, utts, bsize, rate0, post, upd, order, pending, epochs, hist, stage
vars == <<groups, utts, bsize, rate0, post, upd, order, pending, epochs, hist, stage>>

Init == /\ groups = <<>> /\ utts = <<>> /\ bsize = 0 /\ rate0 \in Rates /\ post = <<>> /\ upd = 0 /\ order = <<>> /\ pending = <<>>
        /\ epochs \in 0..MaxEpochs /\ hist = <<>> /\ stage = "model"
Param(g) == /\ stage = "model" /\ Len(groups) < MaxP /\ g <= NGroups(groups) + 1 /\ g <= MaxG
            /\ groups' = Append(groups, g) /\ UNCHANGED <<utts, bsize, rate0, post, upd, order, pending, epochs, hist, stage>>
EndModel == /\ stage = "model" /\ groups # <<>> /\ stage' = "data" /\ post' = Prior(Len(groups))
            /\ UNCHANGED <<groups, utts, bsize, rate0, upd, order, pending, epochs, hist>>
Utt(nf, ones) == /\ stage = "data" /\ Len(utts) < MaxUtts /\ utts' = Append(utts, [nf |-> nf, ones |-> ones])
                 /\ UNCHANGED <<groups, bsize, rate0, post, upd, order, pending, epochs, hist, stage>>
(* batch size 0 stands for "the whole data set"                                   *)
EndData(b) == /\ stage = "data" /\ utts # <<>> /\ bsize' = b
              /\ stage' = (IF epochs = 0 THEN "done" ELSE "run")
              /\ UNCHANGED <<groups, utts, rate0, post, upd, order, pending, epochs, hist>>
N == Len(utts)
B == IF bsize = 0 THEN N ELSE bsize
BagOf(s) == [i \in 1..Len(s) |-> [u |-> s[i], k |-> 1]]
Visit(u) ==
  /\ stage = "run" /\ (\A i \in 1..Len(order) : order[i] # u)
  /\ LET ord == Append(order, u)
         pen == Append(pending, u)
     IN IF Len(pen) = B \/ Len(ord) = N
        THEN /\ post' = Update(groups, post, upd, RQ(rate0, 4), utts, BagOf(pen)) /\ upd' = upd + 1 /\ pending' = <<>>
             /\ hist' = Append(hist, [epoch |-> 1 + Cardinality({i \in 1..Len(hist) : hist[i].last}), batch |-> pen, last |-> Len(ord) = N, post |-> post'])
             /\ order' = (IF Len(ord) = N THEN <<>> ELSE ord)
             /\ stage' = (IF Len(ord) = N /\ hist'[Len(hist')].epoch = epochs THEN "done" ELSE "run")
        ELSE pending' = pen /\ order' = ord /\ UNCHANGED <<post, upd, hist, stage>>
  /\ UNCHANGED <<groups, utts, bsize, rate0, epochs>>

Next == \/ (stage = "model" /\ \E g \in 1..MaxG : Param(g)) \/ EndModel
        \/ (stage = "data" /\ \E nf \in 1..MaxNf : \E ones \in [1..Len(groups) -> 0..nf] : Utt(nf, ones))
        \/ (stage = "data" /\ \E b \in 0..MaxUtts + 1 : EndData(b))
        \/ (stage = "run" /\ \E u \in 1..N : Visit(u))

(* ------------------------------------------------------------- theorems *)
Done == stage = "done"
EachOnce == Done => \A e \in 1..epochs, u \in 1..N :
  ISumSeq([i \in 1..Len(hist) |-> IF hist[i].epoch = e THEN Cardinality({j \in 1..Len(hist[i].batch) : hist[i].batch[j] = u}) ELSE 0]) = 1
Updates == Done => upd = epochs * ((N + B - 1) \div B) /\ pending = <<>>
(* one batch per epoch: the order of the visit is irrelevant                       *)
WholeBatch == (Done /\ B >= N) =>
  LET RECURSIVE Run(_)
      Run(e) == IF e = 0 THEN Prior(Len(groups)) ELSE Update(groups, Run(e - 1), e - 1, RQ(rate0, 4), utts, BagOf([i \in 1..N |-> i]))
  IN post = Run(epochs)
Emit == Done => PrintT("@@" \o ToJson(
  [groups |-> groups, prior |-> Prior(Len(groups)), utts |-> utts, bsize |-> bsize, rate |-> rate0, epochs |-> epochs, hist |-> hist, post |-> post]))
=============================================================================
