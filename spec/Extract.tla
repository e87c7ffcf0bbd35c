-------------------------------- MODULE Extract --------------------------------
(* C25: the extract command: options, list of recordings (an utterance may be   *)
(* listed again: the last listing counts), one feature file per utterance, of   *)
(* the declared dimension and number of frames.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Rates, Durations, MaxList, NFilters
VARIABLES conf, list, files, pos, phase
vars == <<conf, list, files, pos, phase>>
Bool == {TRUE, FALSE}
Init == phase = "conf" /\ conf = [rate |-> 0] /\ list = <<>> /\ files = <<>> /\ pos = 0
(* frame length and rate in tenths of milliseconds                              *)
Conf == phase = "conf" /\ phase' = "conf2" /\ UNCHANGED <<list, files, pos>>
  /\ \E rate \in Rates, flen \in {40, 90, 160, 250}, fstep \in {25, 50, 100, 160}, fb \in Bool, dct \in Bool, en \in Bool :
       /\ dct => fb
       /\ conf' = [rate |-> rate, flen |-> flen, fstep |-> fstep, fb |-> fb, dct |-> dct, energy |-> en]
Conf2 == phase = "conf2" /\ phase' = "list" /\ UNCHANGED <<list, files, pos>>
  /\ \E nf \in NFilters, nd \in 1..4, deltas \in Bool, order \in 0..3, win \in 1..3, mn \in Bool, pre \in {0, 50, 97}, lift \in {22, 5}, band \in 0..2 :
       conf' = [rate |-> conf.rate, flen |-> conf.flen, fstep |-> conf.fstep, fb |-> conf.fb, dct |-> conf.dct, energy |-> conf.energy,
                nf |-> nf, nd |-> nd, deltas |-> deltas, order |-> order, win |-> win, mnorm |-> mn, pre |-> pre, lift |-> lift, band |-> band]
F == (conf.rate * conf.flen) \div 10000
S == (conf.rate * conf.fstep) \div 10000
(* a recording: identifier, number of samples, how it is read                    *)
List == phase = "list" /\ Len(list) < MaxList
  /\ \E id \in 1..3, d \in Durations, how \in {"file", "pipe"} :
       /\ F + d >= F
       /\ list' = Append(list, [id |-> id, n |-> F + d, how |-> how, rec |-> Len(list) + 1])
  /\ UNCHANGED <<conf, files, pos, phase>>
Go == phase = "list" /\ list # <<>> /\ phase' = "run" /\ files' = [i \in 1..3 |-> 0] /\ pos' = 1 /\ UNCHANGED <<conf, list>>
Step == phase = "run" /\ pos <= Len(list) /\ files' = [files EXCEPT ![list[pos].id] = pos] /\ pos' = pos + 1 /\ UNCHANGED <<conf, list, phase>>
Stop == phase = "run" /\ pos > Len(list) /\ phase' = "done" /\ UNCHANGED <<conf, list, files, pos>>
Next == Conf \/ Conf2 \/ List \/ Go \/ Step \/ Stop
RECURSIVE Pow2(_)
Pow2(k) == IF k > F THEN k ELSE Pow2(2 * k)
FFT == Pow2(1)
Static == (IF conf.dct THEN conf.nd ELSE IF conf.fb THEN conf.nf ELSE FFT \div 2) + (IF conf.energy THEN 1 ELSE 0)
Dim == Static * (IF conf.deltas THEN 1 + conf.order ELSE 1)
NFrames(n) == ((n - F) \div S) + 1
(* one file per identifier, from its last listing                                *)
OneEach == phase = "done" => \A i \in 1..3 : files[i] = (IF \E k \in 1..Len(list) : list[k].id = i
   THEN CHOOSE k \in 1..Len(list) : list[k].id = i /\ \A m \in (k + 1)..Len(list) : list[m].id # i ELSE 0)
Emit == phase = "done" => PrintT("@@" \o ToJson([conf |-> conf, list |-> list, files |-> files, f |-> F, s |-> S, fft |-> FFT, dim |-> Dim,
   frames |-> [k \in 1..Len(list) |-> NFrames(list[k].n)]]))
===============================================================================
