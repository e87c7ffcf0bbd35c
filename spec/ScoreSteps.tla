------------------------------ MODULE ScoreSteps ------------------------------
(* C32: the scoring steps of the recipe: a sequence of tools, each of which makes  *)
(* files of the ones before; a tool whose score is there is skipped.  A run can be  *)
(* interrupted anywhere, a tool can fail; the step is then run again.               *)
(*   "aud"  overlap (counts, map) -> mapped (trans) -> rate (per), nmi, entropy,    *)
(*          bounds; with a given mapping, that one is used for trans                *)
(*   "ter"  rate (per), and a mark that it is done                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxRuns, MaxStops,
          Whole,         \* a file which makes a tool be skipped appears complete or not at all
          ToolStatus,    \* a failed tool stops the step
          UseGiven       \* the mapping given is the one used
VARIABLES kind, given, f, pc, hist, stops
vars == <<kind, given, f, pc, hist, stops>>
Tools == IF kind = "aud" THEN <<"overlap", "mapped", "rate", "nmi", "entropy", "bounds">> ELSE <<"rate", "mark">>
Files == {"counts", "map", "trans", "per", "nmi", "entropy", "bounds", "done"}
Outs(t) == CASE t = "overlap" -> <<"counts", "map">> [] t = "mapped" -> <<"trans">> [] t = "rate" -> <<"per">> [] t = "mark" -> <<"done">> [] OTHER -> <<t>>
(* the file which makes the tool be skipped                                        *)
Key(t) == CASE t = "overlap" -> "counts" [] t \in {"mapped", "rate", "mark"} -> (IF kind = "ter" THEN "done" ELSE "per") [] OTHER -> t
Ins(t) == CASE t = "mapped" -> (IF given /\ UseGiven THEN {} ELSE {"map"}) [] t = "rate" -> (IF kind = "aud" THEN {"trans"} ELSE {})
            [] t = "nmi" -> {"counts"} [] OTHER -> {}
Scores == IF kind = "aud" THEN {"per", "nmi", "entropy", "bounds"} ELSE {"per"}
(* complete, but of the wrong inputs                                               *)
Value(t) == IF (\E x \in Ins(t) : f[x] # "ok") \/ (t = "mapped" /\ given /\ ~UseGiven) THEN "wrong" ELSE "ok"
Tool == Tools[pc]
Set(S, v) == [x \in Files |-> IF x \in S THEN v ELSE f[x]]
Range(s) == {s[i] : i \in DOMAIN s}
Init == kind \in {"aud", "ter"} /\ given \in BOOLEAN /\ (kind = "ter" => ~given) /\ f = [x \in Files |-> "absent"] /\ pc = 0 /\ hist = <<>> /\ stops = 0
Start == pc \in {0, -1} /\ Len(hist) < MaxRuns /\ pc' = 1 /\ hist' = Append(hist, [tool |-> "", stage |-> "", mode |-> ""]) /\ UNCHANGED <<kind, given, f, stops>>
Busy == pc > 0 /\ pc <= Len(Tools)
Skip == Busy /\ f[Key(Tool)] # "absent" /\ pc' = pc + 1 /\ UNCHANGED <<kind, given, f, hist, stops>>
Work == Busy /\ f[Key(Tool)] = "absent" /\ f' = Set(Range(Outs(Tool)), Value(Tool)) /\ pc' = pc + 1 /\ UNCHANGED <<kind, given, hist, stops>>
End == pc = Len(Tools) + 1 /\ pc' = -1 /\ UNCHANGED <<kind, given, f, hist, stops>>
(* -------------------------------------------------------------- interruption *)
Stages == {"before", "mid", "second", "after"}
Stage(s) == Tool # "mark" /\ (s = "second" => Tool = "overlap")
(* what a tool stopped there leaves: its first output in the making, its second    *)
Left(s) == LET o == Outs(Tool) broken == IF Whole /\ Key(Tool) = o[1] /\ kind = "aud" THEN f[o[1]] ELSE "partial" IN
  CASE s = "before" -> f
    [] s = "mid" -> Set({o[1]}, broken)
    [] s = "second" -> [Set({o[1]}, IF Whole THEN f[o[1]] ELSE "ok") EXCEPT ![o[2]] = "partial"]
    [] s = "after" -> IF Whole /\ kind = "aud" THEN [Set(Range(o), Value(Tool)) EXCEPT ![o[1]] = IF Key(Tool) = o[1] THEN f[o[1]] ELSE Value(Tool)]
                      ELSE Set(Range(o), Value(Tool))
Mark(s, m) == hist' = [hist EXCEPT ![Len(hist)] = [tool |-> Tool, stage |-> s, mode |-> m]]
CanStop == Busy /\ f[Key(Tool)] = "absent" /\ stops < MaxStops /\ stops' = stops + 1 /\ UNCHANGED <<kind, given>>
Crash(s) == CanStop /\ Stage(s) /\ f' = Left(s) /\ pc' = 0 /\ Mark(s, "crash")
Fails(s) == CanStop /\ Stage(s) /\ s # "after" /\ hist[Len(hist)].tool = "" /\ f' = Left(s) /\ pc' = (IF ToolStatus THEN 0 ELSE pc + 1) /\ Mark(s, "fail")
Next == Start \/ Skip \/ Work \/ End \/ (\E s \in Stages : Crash(s) \/ Fails(s))
(* ---------------------------------------------------------------- guarantees *)
(* a run that ends reports the scores of the complete files                       *)
Reported == pc = -1 => \A x \in Scores : f[x] = "ok"
(* a run in which a tool failed does not end as if nothing had happened            *)
Shown == pc = -1 => hist[Len(hist)].mode # "fail"
Finished == kind = "aud" \/ f["done"] = "ok"
Stable == [][\A x \in Scores : (f[x] = "ok" /\ Finished) => f'[x] = "ok"]_vars
AnyHistory == <<kind, given, f, pc, hist # <<>> /\ hist[Len(hist)].tool # "", hist # <<>> /\ hist[Len(hist)].mode = "fail">>
Emit == (pc = -1 /\ hist[Len(hist)].tool = "") => PrintT("@@" \o ToJson([kind |-> kind, given |-> given, hist |-> hist]))
===============================================================================
