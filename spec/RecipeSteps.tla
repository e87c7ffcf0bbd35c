------------------------------ MODULE RecipeSteps ------------------------------
(* C28: the other recipe steps, which run jobs over a list of items, combine the  *)
(* files of the jobs and publish one output; a step whose output exists is skipped.*)
(*   "lines"  every job writes one file with the results of its items             *)
(*            (decode.sh, align.sh)                                               *)
(*   "files"  every item has a file in a folder kept between runs                 *)
(*            (extract_features.sh, alignment graphs of monophone.sh)             *)
(*   "fresh"  every item has a file in a folder of this run (posteriors.sh)       *)
(*   "single" one command writes the output (create_dataset.sh)                   *)
(* Steps can be interrupted anywhere, jobs can fail, and the next run may use     *)
(* another number of jobs or another list.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Kinds, Jobs, MaxRuns, MaxStops, ChangeList,
          StopOnFail,      \* a failed job stops the step
          FreshParts,      \* the files of an earlier run are removed
          CombineStatus,   \* a failed combination stops the step
          AtomicOut        \* the output appears complete or not at all
VARIABLES kind, parts, out, pc, list, njobs, t, bad, hist, stops, before
files == <<parts, out>>
vars == <<kind, parts, out, pc, list, njobs, t, bad, hist, stops, before>>
Items == 1..N
Absent == [k |-> "absent", v |-> <<>>]
Partial == [k |-> "partial", v |-> <<>>]
Ok(v) == [k |-> "ok", v |-> v]
Want(l) == [u \in Items |-> IF u \in l THEN 1 ELSE 0]
Rank(l, u) == Cardinality({x \in l : x < u})
(* consecutive lines of the list                                                  *)
Chunk(l, j, x) == {u \in l : ((Rank(l, u) * j) \div Cardinality(l)) = x - 1}
Init == kind \in Kinds /\ parts = {} /\ out = Absent /\ pc = "down" /\ list = Items /\ njobs = 0 /\ t = 0 /\ bad = FALSE /\ hist = <<>> /\ stops = 0 /\ before = Absent
Start(j, l) == pc \in {"down", "end"} /\ Len(hist) < MaxRuns /\ njobs' = j /\ list' = l /\ t' = 1 /\ bad' = FALSE /\ before' = out
  /\ hist' = Append(hist, [jobs |-> j, list |-> l, at |-> "", task |-> 0, stage |-> ""])
  /\ pc' = (IF out # Absent THEN "end" ELSE IF kind = "single" THEN "combine" ELSE "jobs")
  /\ parts' = (IF out = Absent /\ (FreshParts \/ kind = "fresh") THEN {} ELSE parts) /\ UNCHANGED <<kind, out, stops>>
Run == <<kind, list, njobs, hist, stops, before>>
(* the files of a job, the last of them cut short                                 *)
Mine == Chunk(list, njobs, t)
Lined(k) == {p \in parts : p.x # t} \cup {[x |-> t, k |-> k, items |-> Mine]}
Filed(S, k) == {p \in parts : p.x \notin S} \cup {[x |-> u, k |-> k, items |-> {u}] : u \in S}
Full == IF kind = "lines" THEN Lined("ok") ELSE Filed(Mine, "ok")
(* cut short: the first files may be complete                                     *)
Cut == IF kind = "lines" THEN Lined("partial")
       ELSE IF Mine = {} THEN parts ELSE LET first == CHOOSE u \in Mine : \A w \in Mine : u <= w IN Filed({first}, "partial")
Job == pc = "jobs" /\ t <= njobs /\ parts' = Full /\ t' = t + 1 /\ UNCHANGED <<out, pc, bad, Run>>
Collect == pc = "jobs" /\ t > njobs /\ ~(bad /\ StopOnFail) /\ pc' = "combine" /\ UNCHANGED <<files, t, bad, Run>>
Counts == [u \in Items |-> IF \E p \in parts : u \in p.items /\ p.k = "partial" THEN -1 ELSE Cardinality({p \in parts : u \in p.items})]
Result == Ok(IF kind = "single" THEN Want(Items) ELSE Counts)
Combine == pc = "combine" /\ out' = Result /\ pc' = "end" /\ parts' = (IF kind \in {"files", "fresh"} THEN {} ELSE parts) /\ UNCHANGED <<t, bad, Run>>
(* -------------------------------------------------------------- interruption *)
Mark(a, s) == hist' = [hist EXCEPT ![Len(hist)].at = a, ![Len(hist)].task = t, ![Len(hist)].stage = s]
CanStop == stops < MaxStops /\ stops' = stops + 1
Keep == UNCHANGED <<kind, list, njobs, before>>
CrashJob(s) == CanStop /\ pc = "jobs" /\ t <= njobs /\ Mark("job", s) /\ pc' = "down" /\ UNCHANGED <<out, t, bad>> /\ Keep
  /\ parts' = (IF s = "before" THEN parts ELSE IF s = "mid" THEN Cut ELSE Full)
CrashCombine(s) == CanStop /\ pc = "combine" /\ Mark("combine", s) /\ pc' = "down" /\ UNCHANGED <<parts, t, bad>> /\ Keep
  /\ out' = (IF s = "before" THEN out ELSE IF s = "mid" THEN (IF AtomicOut THEN out ELSE Partial) ELSE IF AtomicOut THEN out ELSE Result)
JobFails(s) == CanStop /\ pc = "jobs" /\ t <= njobs /\ ~bad /\ Mark("jobfail", s) /\ bad' = TRUE /\ t' = t + 1 /\ UNCHANGED <<out, pc>> /\ Keep
  /\ parts' = (IF s = "before" THEN parts ELSE Cut)
CombineFails(s) == CanStop /\ pc = "combine" /\ Mark("combinefail", s) /\ UNCHANGED <<t, bad>> /\ Keep
  /\ out' = (IF s = "mid" /\ ~AtomicOut THEN Partial ELSE out)
  /\ IF CombineStatus THEN pc' = "down" /\ UNCHANGED parts ELSE pc' = "end" /\ parts' = IF kind \in {"files", "fresh"} THEN {} ELSE parts
Quit == pc = "jobs" /\ t > njobs /\ bad /\ StopOnFail /\ pc' = "down" /\ UNCHANGED <<files, t, bad, Run>>
Lists == IF ChangeList THEN SUBSET Items \ {{}} ELSE {Items}
Next == \/ (\E j \in Jobs, l \in Lists : Start(j, l)) \/ Job \/ Collect \/ Combine \/ Quit
        \/ (\E s \in {"before", "mid", "after"} : CrashJob(s) \/ CrashCombine(s))
        \/ (\E s \in {"before", "mid"} : JobFails(s) \/ CombineFails(s))
(* ---------------------------------------------------------------- guarantees *)
(* an output is the complete result of the list of the run that made it           *)
Whole == out.k # "partial" /\ (out.k = "ok" => \E l \in SUBSET Items : out.v = Want(l))
(* when a run ends, the output is there; made by this run, it covers its list      *)
Done == pc = "end" => out.k = "ok" /\ (before = Absent => out.v = Want(IF kind = "single" THEN Items ELSE list))
(* a finished step is not done again                                              *)
Untouched == (pc = "end" /\ before # Absent) => out = before
Stable == [][out.k = "ok" => out' = out]_vars
NoDeadEnd == (pc = "down" /\ hist # <<>>) => hist[Len(hist)].at # ""
AnyHistory == <<kind, files, pc, list, njobs, t, bad, before, hist # <<>> /\ hist[Len(hist)].at = "">>
Last == pc = "end" /\ hist[Len(hist)].at = ""
Emit == Last => PrintT("@@" \o ToJson([kind |-> kind, hist |-> hist]))
===============================================================================
