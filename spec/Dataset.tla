------------------------------ MODULE Dataset -------------------------------
(* C17: a feature archive, the data set compiled from it, and programs of        *)
(* iterators, lookups, saves and reloads on the data set.  Utterance k is the     *)
(* k-th identifier in sorted order; results of a call are part of the action, so  *)
(* that recorded executions can be validated against the specification.           *)
EXTENDS Rat, TLC, Json, Randomization

CONSTANTS MaxUtts, MaxFrames, Dim, MaxOps, MaxIters

VARIABLES utts, cur, iters, hist, stage
vars == <<utts, cur, iters, hist, stage>>

Vals == {-3, 0, 1, 2, 60, 100}
Init == utts = <<>> /\ cur = <<>> /\ iters = <<>> /\ hist = <<>> /\ stage = "data"

(* frames of the current utterance are added one at a time                        *)
Frame(x) == stage = "data" /\ Len(cur) < MaxFrames /\ cur' = Append(cur, x) /\ UNCHANGED <<utts, iters, hist, stage>>
EndUtt == stage = "data" /\ Len(utts) < MaxUtts /\ utts' = Append(utts, cur) /\ cur' = <<>> /\ UNCHANGED <<iters, hist, stage>>
Total == ISumSeq([i \in 1..Len(utts) |-> Len(utts[i])])
EndData == stage = "data" /\ Total > 0 /\ cur = <<>> /\ stage' = "run" /\ UNCHANGED <<utts, cur, iters, hist>>

N == Len(utts)
Room == stage = "run" /\ Len(hist) < MaxOps
Log(e) == hist' = Append(hist, e)
NewIter(mode) == /\ Room /\ Len(iters) < MaxIters /\ iters' = Append(iters, [mode |-> mode, seen |-> <<>>])
                 /\ Log([op |-> "iter", mode |-> mode]) /\ UNCHANGED <<utts, cur, stage>>
Seen(i) == {iters[i].seen[k] : k \in 1..Len(iters[i].seen)}
(* res = 0: end of the iteration                                                  *)
CanYield(i, res) == IF Len(iters[i].seen) = N THEN res = 0
                    ELSE /\ res \in 1..N /\ res \notin Seen(i)
                         /\ (iters[i].mode = "sorted" => res = Len(iters[i].seen) + 1)
NextCall(i, res) == /\ Room /\ i \in 1..Len(iters) /\ CanYield(i, res)
                    /\ iters' = [iters EXCEPT ![i].seen = IF res = 0 THEN @ ELSE Append(@, res)]
                    /\ Log([op |-> "next", it |-> i, res |-> res]) /\ UNCHANGED <<utts, cur, stage>>
(* key 0: an identifier that is not in the archive                                *)
Get(k, res) == Room /\ k \in 0..N /\ res = k /\ Log([op |-> "get", key |-> k, res |-> res]) /\ UNCHANGED <<utts, cur, iters, stage>>
LenCall(res) == Room /\ res = N /\ Log([op |-> "len", res |-> res]) /\ UNCHANGED <<utts, cur, iters, stage>>
SizeCall(res) == Room /\ res = Total /\ Log([op |-> "size", res |-> res]) /\ UNCHANGED <<utts, cur, iters, stage>>
(* saving and reloading; mode "both": go on with the reloaded data set, iterators  *)
(* of the old one stay alive; "keep": go on with the old one                       *)
Reload(mode) == /\ Room /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].op # "reload") /\ Log([op |-> "reload", mode |-> mode]) /\ UNCHANGED <<utts, cur, iters, stage>>
Finish == stage = "run" /\ Len(hist) = MaxOps /\ stage' = "done" /\ UNCHANGED <<utts, cur, iters, hist>>

Next == \/ (stage = "data" /\ \E x \in [1..Dim -> Vals] : Frame(x)) \/ EndUtt \/ EndData
        \/ (\E m \in {"sorted", "random"} : NewIter(m)) \/ (Room /\ \E i \in 1..Len(iters), r \in 0..N : NextCall(i, r))
        \/ (Room /\ \E k \in 0..N : Get(k, k)) \/ (stage = "run" /\ (LenCall(N) \/ SizeCall(Total)))
        \/ (\E m \in {"switch", "keep"} : Reload(m)) \/ Finish
(* simulation: short data, then programs                                          *)
SimNext == \/ (stage = "data" /\ (Len(cur) < MaxFrames) /\ \E x \in RandomSubset(4, [1..Dim -> Vals]) : Frame(x)) \/ ((cur # <<>> \/ Len(utts) = 2) /\ EndUtt) \/ (Len(utts) >= 2 /\ EndData)
           \/ (stage = "run" /\ Next)

Moment(d, k) == RQ(ISumSeq([i \in 1..N |-> ISumSeq([t \in 1..Len(utts[i]) |-> IF k = 1 THEN utts[i][t][d] ELSE utts[i][t][d] * utts[i][t][d]])]), Total)
(* a constant added to the features moves the mean and leaves the variance alone  *)
Offsets == {0, 4096, -8192}
Shifted(d, o, k) == RQ(ISumSeq([i \in 1..N |-> ISumSeq([t \in 1..Len(utts[i]) |-> IF k = 1 THEN utts[i][t][d] + o ELSE (utts[i][t][d] + o) * (utts[i][t][d] + o)])]), Total)
(* every utterance stored several times: only the size changes                     *)
MomentOf(us, d, k) == RQ(ISumSeq([i \in 1..Len(us) |-> ISumSeq([t \in 1..Len(us[i]) |-> IF k = 1 THEN us[i][t][d] ELSE us[i][t][d] * us[i][t][d]])]),
                         ISumSeq([i \in 1..Len(us) |-> Len(us[i])]))
Mean == [d \in 1..Dim |-> Moment(d, 1)]
Var == [d \in 1..Dim |-> RSub(Moment(d, 2), RMul(Moment(d, 1), Moment(d, 1)))]

(* ------------------------------------------------------------- theorems *)
NoRepeat == \A i \in 1..Len(iters) : Cardinality(Seen(i)) = Len(iters[i].seen)
VarNonNegative == stage # "data" => \A d \in 1..Dim : Var[d][1] >= 0
OffsetMovesMean == stage = "done" => \A d \in 1..Dim : \A o \in {-2, 16} :
  /\ Shifted(d, o, 1) = RAdd(Mean[d], R(o))
  /\ RSub(Shifted(d, o, 2), RMul(Shifted(d, o, 1), Shifted(d, o, 1))) = Var[d]
Copies == stage = "done" => \A d \in 1..Dim : \A k \in {1, 2} : MomentOf(utts \o utts \o utts, d, k) = Moment(d, k)
Emit == stage = "done" => PrintT("@@" \o ToJson([utts |-> utts, hist |-> hist, size |-> Total, mean |-> Mean, var |-> Var, offsets |-> Offsets]))
=============================================================================
