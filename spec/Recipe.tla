-------------------------------- MODULE Recipe --------------------------------
(* C24: the training recipe as a process over files that can be interrupted at   *)
(* any point, run again with another number of jobs or another number of epochs. *)
(* A model is the sequence of updates that made it: how often every utterance    *)
(* was counted, and which group of parameters the optimiser was at.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, MaxEpochs, Groups, Jobs, MaxRuns, MaxStops,
          Base,            \* epochs of a training completed before the history
          StopOnFail,      \* a failed job stops the run
          FreshLists,      \* lists of an earlier submission are removed
          FreshStats,      \* statistics of an earlier submission are removed
          PipeStatus,      \* a failed update stops the run
          AtomicFiles,     \* models appear complete or not at all
          StatePerEpoch,   \* the optimiser state goes with the model of its epoch
          FinalIsLast      \* training is over when the final model is the one of the last epoch
VARIABLES hmms, mdl, opt, lists, stats, final,       \* files
          pc, e, njobs, target, t, bad,              \* the running recipe
          hist, stops, before
files == <<hmms, mdl, opt, lists, stats, final>>
vars == <<hmms, mdl, opt, lists, stats, final, pc, e, njobs, target, t, bad, hist, stops, before>>
Utts == 1..N
Absent == [k |-> "absent", v |-> <<>>]
Partial == [k |-> "partial", v |-> <<>>]
Ok(v) == [k |-> "ok", v |-> v]
Epochs == 0..MaxEpochs
Once == [u \in Utts |-> 1]
Ideal(n) == [i \in 1..n |-> [count |-> Once, group |-> (i - 1) % Groups]]
Chunk(j, x) == {u \in Utts : (((u - 1) * j) \div N) = x - 1}
Width(j) == IF j < 10 THEN 1 ELSE IF j < 100 THEN 2 ELSE 3
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
Init == /\ hmms = (IF Base = 0 THEN Absent ELSE Ok(<<>>)) /\ mdl = [i \in Epochs |-> IF Base > 0 /\ i <= Base THEN Ok(Ideal(i)) ELSE Absent]
        /\ opt = [i \in Epochs |-> IF i <= Base THEN i ELSE 0] /\ lists = [i \in Epochs |-> {}]
        /\ stats = [i \in Epochs |-> {}] /\ final = (IF Base = 0 THEN Absent ELSE Ok(Ideal(Base)))
        /\ pc = "down" /\ e = 0 /\ njobs = 0 /\ target = 0 /\ t = 0 /\ bad = FALSE /\ hist = <<>> /\ stops = 0 /\ before = <<>>
(* ------------------------------------------------------------------ the run *)
Start(j, n) == pc \in {"down", "end"} /\ Len(hist) < MaxRuns /\ pc' = "hmms" /\ njobs' = j /\ target' = n /\ bad' = FALSE /\ t' = 0
  /\ hist' = Append(hist, [jobs |-> j, epochs |-> n, at |-> "", epoch |-> 0, task |-> 0, stage |-> ""])
  /\ before' = <<hmms, mdl, final>> /\ UNCHANGED <<hmms, mdl, opt, lists, stats, final, e, stops>>
Run == <<njobs, target, hist, stops, before>>
Units == pc = "hmms" /\ hmms' = (IF hmms = Absent THEN Ok(<<>>) ELSE hmms) /\ pc' = "loop" /\ UNCHANGED <<mdl, opt, lists, stats, final, e, t, bad, Run>>
(* a partial units' model cannot be read: the run fails                          *)
Loop == pc = "loop" /\ (mdl[0] = Absent /\ hmms = Partial => FALSE) /\ mdl' = [mdl EXCEPT ![0] = IF @ = Absent THEN Ok(<<>>) ELSE @] /\ pc' = "look"
  /\ UNCHANGED <<hmms, opt, lists, stats, final, e, t, bad, Run>>
Finished == IF FinalIsLast THEN final # Absent /\ final = mdl[target] ELSE final # Absent /\ mdl[target] # Absent
Look == pc = "look" /\ pc' = (IF Finished THEN "end" ELSE "epoch") /\ e' = SetMax({i \in Epochs : mdl[i] # Absent}) /\ UNCHANGED <<files, t, bad, Run>>
Split(old) == (IF FreshLists THEN {} ELSE {l \in old : l.w # Width(njobs) \/ l.x > njobs}) \cup {[w |-> Width(njobs), x |-> i, part |-> Chunk(njobs, i)] : i \in 1..njobs}
Begin == pc = "epoch" /\ e < target /\ e' = e + 1 /\ lists' = [lists EXCEPT ![e + 1] = Split(@)]
  /\ stats' = [stats EXCEPT ![e + 1] = IF FreshStats THEN {} ELSE @] /\ t' = 1 /\ bad' = FALSE /\ pc' = "acc" /\ UNCHANGED <<hmms, mdl, opt, final, Run>>
Tasks == Cardinality(lists[e])
Task(x) == [u \in Utts |-> Cardinality({l \in lists[e] : l.x = x /\ u \in l.part})]
Put(x, v) == stats' = [stats EXCEPT ![e] = {s \in @ : s.x # x} \cup {[x |-> x, count |-> v]}]
Accumulate == pc = "acc" /\ t <= Tasks /\ mdl[e - 1].k = "ok" /\ Put(t, Ok(Task(t))) /\ t' = t + 1 /\ UNCHANGED <<hmms, mdl, opt, lists, final, pc, e, bad, Run>>
Collect == pc = "acc" /\ t > Tasks /\ (bad /\ StopOnFail => FALSE) /\ pc' = "upd" /\ UNCHANGED <<files, e, t, bad, Run>>
RECURSIVE SumOver(_, _)
SumOver(S, u) == IF S = {} THEN 0 ELSE LET s == CHOOSE x \in S : TRUE IN s.count.v[u] + SumOver(S \ {s}, u)
(* a state cut short is -1                                                       *)
OptIn == IF StatePerEpoch THEN opt[e - 1] ELSE opt[0]
Readable == stats[e] # {} /\ (\A s \in stats[e] : s.count.k = "ok") /\ OptIn # -1
PutOpt(x) == [opt EXCEPT ![IF StatePerEpoch THEN e ELSE 0] = x]
NewModel == Ok(Append(mdl[e - 1].v, [count |-> [u \in Utts |-> SumOver(stats[e], u)], group |-> OptIn % Groups]))
NewOpt == PutOpt(OptIn + 1)
Update == pc = "upd" /\ Readable /\ mdl' = [mdl EXCEPT ![e] = NewModel] /\ opt' = NewOpt /\ pc' = "epoch" /\ UNCHANGED <<hmms, lists, stats, final, e, t, bad, Run>>
(* the failed update goes unnoticed                                              *)
Unnoticed == pc = "upd" /\ ~Readable /\ ~PipeStatus /\ pc' = "epoch" /\ UNCHANGED <<files, e, t, bad, Run>>
Publish == pc = "epoch" /\ e >= target /\ mdl[e].k # "absent" /\ final' = mdl[e] /\ pc' = "end" /\ UNCHANGED <<hmms, mdl, opt, lists, stats, e, t, bad, Run>>
(* -------------------------------------------------------------- interruption *)
Mark(a, s) == hist' = [hist EXCEPT ![Len(hist)].at = a, ![Len(hist)].epoch = e, ![Len(hist)].task = t, ![Len(hist)].stage = s]
CanStop == pc \notin {"down", "end"} /\ stops < MaxStops
Stopped == pc' = "down" /\ stops' = stops + 1 /\ UNCHANGED <<njobs, target, e, t, bad, before>>
Broken(f) == IF AtomicFiles THEN f ELSE Partial
CrashUnits(s) == CanStop /\ pc = "hmms" /\ hmms = Absent /\ s \in {"before", "mid", "after"} /\ Mark("hmms", s) /\ Stopped
  /\ hmms' = (IF s = "mid" THEN Broken(hmms) ELSE IF s = "after" /\ ~AtomicFiles THEN Ok(<<>>) ELSE hmms) /\ UNCHANGED <<mdl, opt, lists, stats, final>>
CrashLoop(s) == CanStop /\ pc = "loop" /\ mdl[0] = Absent /\ hmms.k = "ok" /\ s \in {"before", "mid", "after"} /\ Mark("loop", s) /\ Stopped
  /\ mdl' = [mdl EXCEPT ![0] = IF s = "mid" THEN Broken(@) ELSE IF s = "after" /\ ~AtomicFiles THEN Ok(<<>>) ELSE @] /\ UNCHANGED <<hmms, opt, lists, stats, final>>
CrashAcc(s) == CanStop /\ pc = "acc" /\ t <= Tasks /\ mdl[e - 1].k = "ok" /\ s \in {"before", "mid", "after"} /\ Mark("acc", s) /\ Stopped
  /\ (IF s = "mid" THEN Put(t, Partial) ELSE IF s = "after" THEN Put(t, Ok(Task(t))) ELSE UNCHANGED stats) /\ UNCHANGED <<hmms, mdl, opt, lists, final>>
(* within the update: while writing the model, between model and state, after both *)
CrashUpd(s) == CanStop /\ pc = "upd" /\ Readable /\ s \in {"before", "mid", "state", "after", "committed"} /\ Mark("upd", s) /\ Stopped
  /\ mdl' = [mdl EXCEPT ![e] = IF s = "mid" THEN Broken(@) ELSE IF s = "committed" \/ (s \in {"state", "after"} /\ ~AtomicFiles) THEN NewModel ELSE @]
  /\ opt' = (IF s \in {"after", "committed"} THEN NewOpt ELSE IF s = "state" THEN PutOpt(-1) ELSE opt) /\ UNCHANGED <<hmms, lists, stats, final>>
CrashFinal(s) == CanStop /\ pc = "epoch" /\ e >= target /\ mdl[e].k = "ok" /\ s \in {"before", "mid", "after"} /\ Mark("final", s) /\ Stopped
  /\ final' = (IF s = "mid" THEN Broken(final) ELSE IF s = "after" /\ ~AtomicFiles THEN mdl[e] ELSE final) /\ UNCHANGED <<hmms, mdl, opt, lists, stats>>
(* a job fails, before or while writing; the others go on                        *)
JobFails(s) == CanStop /\ pc = "acc" /\ t <= Tasks /\ ~bad /\ mdl[e - 1].k = "ok" /\ s \in {"before", "mid"} /\ Mark("job", s) /\ bad' = TRUE /\ t' = t + 1 /\ stops' = stops + 1
  /\ (IF s = "mid" THEN Put(t, Partial) ELSE UNCHANGED stats) /\ UNCHANGED <<hmms, mdl, opt, lists, final, pc, e, njobs, target, before>>
(* the update alone dies                                                         *)
UpdFails(s) == CanStop /\ pc = "upd" /\ Readable /\ s \in {"before", "mid", "state"} /\ Mark("updjob", s) /\ stops' = stops + 1
  /\ pc' = (IF PipeStatus THEN "down" ELSE "epoch")
  /\ mdl' = [mdl EXCEPT ![e] = IF s = "before" THEN @ ELSE IF s = "mid" THEN (IF PipeStatus THEN Broken(@) ELSE Partial) ELSE IF PipeStatus /\ AtomicFiles THEN @ ELSE NewModel]
  /\ opt' = (IF s = "state" THEN PutOpt(-1) ELSE opt) /\ UNCHANGED <<hmms, lists, stats, final, e, t, bad, njobs, target, before>>
(* the run gives up                                                              *)
GiveUp == \/ (pc = "acc" /\ t > Tasks /\ bad /\ StopOnFail) \/ (pc = "upd" /\ ~Readable /\ PipeStatus)
          \/ (pc = "acc" /\ t <= Tasks /\ mdl[e - 1].k # "ok") \/ (pc = "loop" /\ mdl[0] = Absent /\ hmms = Partial)
          \/ (pc = "epoch" /\ e >= target /\ mdl[e] = Absent)
Quit == GiveUp /\ pc' = "down" /\ UNCHANGED <<files, e, t, bad, Run>>
Next == \/ (\E j \in Jobs, n \in (IF Base > 1 THEN Base - 1 ELSE 1)..MaxEpochs : Start(j, n)) \/ Units \/ Loop \/ Look \/ Begin \/ Accumulate \/ Collect \/ Update \/ Unnoticed \/ Publish \/ Quit
        \/ (\E s \in {"before", "mid", "state", "after", "committed"} : CrashUnits(s) \/ CrashLoop(s) \/ CrashAcc(s) \/ CrashUpd(s) \/ CrashFinal(s) \/ JobFails(s) \/ UpdFails(s))
(* ---------------------------------------------------------------- guarantees *)
(* every model is the one of uninterrupted training                              *)
Same == /\ \A i \in Epochs : mdl[i].k # "absent" => mdl[i] = Ok(Ideal(i))
        /\ hmms.k # "partial" /\ final.k # "partial"
        /\ final.k = "ok" => final.v = Ideal(Len(final.v))
(* models do not have holes: each epoch was applied to the one before            *)
NoHole == \A i \in 1..MaxEpochs : mdl[i].k # "absent" => mdl[i - 1].k # "absent"
(* a completed run published the last epoch, asked for or already there          *)
Reached == pc = "end" => /\ final.k = "ok" /\ Len(final.v) >= target /\ Len(final.v) <= SetMax({i \in Epochs : mdl[i] # Absent})
                         /\ (\A i \in Epochs : i > target => mdl[i] = Absent) => Len(final.v) = target
(* running a finished training again changes nothing                             *)
Untouched == (pc = "end" /\ before[3].k = "ok" /\ Len(before[3].v) >= target /\ before[2][SetMax({i \in Epochs : before[2][i] # Absent})] = before[3]) => <<hmms, mdl, final>> = before
(* completed models are never written again                                      *)
Stable == [][\A i \in Epochs : mdl[i].k = "ok" => mdl'[i] = mdl[i]]_vars
(* a run that is not interrupted completes                                       *)
NoDeadEnd == pc = "down" => (Len(hist) > 0 => hist[Len(hist)].at # "")
(* histories of any length: how often it was stopped is not part of the state   *)
AnyHistory == <<files, pc, e, njobs, target, t, bad, before, hist # <<>> /\ hist[Len(hist)].at = "">>
Last == pc = "end" /\ Len(hist) > 0 /\ hist[Len(hist)].at = ""
Emit == Last => PrintT("@@" \o ToJson([base |-> Base, hist |-> hist, final |-> Len(final.v), models |-> Cardinality({i \in Epochs : mdl[i] # Absent}) - 1]))
===============================================================================
