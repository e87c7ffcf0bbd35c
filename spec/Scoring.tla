-------------------------------- MODULE Scoring --------------------------------
(* C23: a scored corpus: alignments of a reference and a hypothesis, run after  *)
(* run, a mapping of tokens, a lexicon; what every scoring and conversion tool  *)
(* makes of it.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Tokens, MaxUtts, MaxRuns, MaxRun
ED == INSTANCE EditDistance WITH MaxLen <- 0, MaxEdits <- 0, ref <- <<>>, word <- <<>>, n <- 0
VARIABLES utts, cur, map, lex, delta, phase, at
vars == <<utts, cur, map, lex, delta, phase, at>>
Empty == [ref |-> <<>>, hyp |-> <<>>]
RECURSIVE Frames(_, _), Merge(_, _), Mapped(_, _), Segments(_, _, _), Phones(_, _)
Frames(rs, i) == IF i > Len(rs) THEN <<>> ELSE [j \in 1..rs[i][2] |-> rs[i][1]] \o Frames(rs, i + 1)
Merge(s, i) == IF i > Len(s) THEN <<>> ELSE (IF i > 1 /\ s[i] = s[i - 1] THEN <<>> ELSE <<s[i]>>) \o Merge(s, i + 1)
(* the error rate ignores tokens without an image                                *)
Mapped(s, i) == IF i > Len(s) THEN <<>> ELSE (IF s[i] \in DOMAIN map THEN <<map[s[i]]>> ELSE <<>>) \o Mapped(s, i + 1)
(* frames of the runs, first and last included, from 0                           *)
Segments(rs, i, f) == IF i > Len(rs) THEN <<>> ELSE <<<<f, f + rs[i][2] - 1, rs[i][1]>>>> \o Segments(rs, i + 1, f + rs[i][2])
Phones(s, i) == IF i > Len(s) THEN <<>> ELSE lex[s[i]] \o Phones(s, i + 1)
F(u) == [ref |-> Frames(u.ref, 1), hyp |-> Frames(u.hyp, 1), runs |-> u.hyp]
Init == utts = <<>> /\ cur = Empty /\ map = [t \in {} |-> 0] /\ lex = [t \in {} |-> <<>>] /\ delta \in 0..3 /\ phase = "map" /\ at = 1
(* token after token: several may share an image; one may have none (0), or no entry in the lexicon (<<0>>) *)
Words4 == {<<0>>, <<1>>, <<2, 1>>, <<3, 3>>, <<>>}
Describe(v, s) == phase = "map" /\ at <= Cardinality(Tokens) /\ at' = at + 1
  /\ map' = (IF v = 0 THEN map ELSE (at :> v) @@ map) /\ lex' = (IF s = <<0>> THEN lex ELSE (at :> s) @@ lex)
  /\ phase' = (IF at = Cardinality(Tokens) THEN "runs" ELSE "map") /\ UNCHANGED <<utts, cur, delta>>
Ref(t, k) == phase = "runs" /\ Len(cur.ref) < MaxRuns /\ cur' = [cur EXCEPT !.ref = Append(@, <<t, k>>)] /\ UNCHANGED <<utts, map, lex, delta, phase, at>>
Hyp(t, k) == phase = "runs" /\ Len(cur.hyp) < MaxRuns /\ cur' = [cur EXCEPT !.hyp = Append(@, <<t, k>>)] /\ UNCHANGED <<utts, map, lex, delta, phase, at>>
(* the hypothesis copies a run of the reference                                  *)
Copy == phase = "runs" /\ Len(cur.hyp) < Len(cur.ref) /\ cur' = [cur EXCEPT !.hyp = Append(@, cur.ref[Len(@) + 1])] /\ UNCHANGED <<utts, map, lex, delta, phase, at>>
Close == phase = "runs" /\ cur.ref # <<>> /\ cur.hyp # <<>> /\ utts' = Append(utts, F(cur)) /\ cur' = Empty
  /\ phase' = (IF Len(utts) + 1 = MaxUtts THEN "done" ELSE "runs") /\ UNCHANGED <<map, lex, delta, at>>
Done == phase = "runs" /\ utts # <<>> /\ cur = Empty /\ phase' = "done" /\ UNCHANGED <<utts, cur, map, lex, delta, at>>
Next == (\E v \in 0..2, s \in Words4 : Describe(v, s))
  \/ (\E t \in Tokens, k \in 1..MaxRun : Ref(t, k) \/ Hyp(t, k)) \/ Copy \/ Close \/ Done
Corpus == utts
Prep(s, m, r) == LET x == IF m THEN Mapped(s, 1) ELSE s IN IF r THEN Merge(x, 1) ELSE x
RECURSIVE Sum(_, _)
Sum(f, i) == IF i > Len(f) THEN 0 ELSE f[i] + Sum(f, i + 1)
Errors(m, r) == Sum([i \in DOMAIN utts |-> ED!Dist(Prep(Corpus[i].ref, m, r), Prep(Corpus[i].hyp, m, r))], 1)
Words(m, r) == Sum([i \in DOMAIN utts |-> Len(Prep(Corpus[i].ref, m, r))], 1)
(* boundary scoring keeps tokens without an image, told apart from each other: the frames where the unit changes *)
Image(t) == IF t \in DOMAIN map THEN <<"m", map[t]>> ELSE <<"oov", t>>
Bounds(s, m) == {i \in 2..Len(s) : IF m THEN Image(s[i]) # Image(s[i - 1]) ELSE s[i] # s[i - 1]}
Overlap(a, b) == Sum([i \in DOMAIN utts |-> Cardinality({t \in 1..Len(Corpus[i].ref) : t <= Len(Corpus[i].hyp) /\ Corpus[i].hyp[t] = a /\ Corpus[i].ref[t] = b})], 1)
Seen(a) == \E b \in Tokens : Overlap(a, b) > 0
Best(a) == {b \in Tokens : Overlap(a, b) > 0 /\ \A c \in Tokens : Overlap(a, c) <= Overlap(a, b)}
(* entropy of the merged hypothesis: how often each token starts a run           *)
Starts(a) == Sum([i \in DOMAIN utts |-> Cardinality({t \in 1..Len(Corpus[i].hyp) : Corpus[i].hyp[t] = a /\ (t = 1 \/ Corpus[i].hyp[t - 1] # a)})], 1)
(* the error rate of a scoring step: the units of the hypothesis are mapped to phones, *)
(* by a mapping that is given or by their largest overlap; unmapped units (0) count as  *)
(* errors; the phones of both may then be mapped again, dropping those without image    *)
Unique == \A a \in Tokens : Seen(a) => Cardinality(Best(a)) = 1
AsPhone(g, t) == IF g THEN (IF t \in DOMAIN map THEN map[t] ELSE 0) ELSE IF Seen(t) THEN CHOOSE b \in Best(t) : TRUE ELSE 0
Reduces(t) == t \in DOMAIN lex /\ Len(lex[t]) = 1
RECURSIVE Reduced(_, _)
Reduced(s, i) == IF i > Len(s) THEN <<>> ELSE (IF Reduces(s[i]) THEN lex[s[i]] ELSE <<>>) \o Reduced(s, i + 1)
Phone(s, p) == Merge(IF p THEN Reduced(s, 1) ELSE s, 1)
RECURSIVE Through(_, _, _)
Through(s, i, am) == IF i > Len(s) THEN <<>> ELSE <<am[s[i]]>> \o Through(s, i + 1, am)
StepErrors(g, p) == LET am == TLCEval([t \in Tokens |-> AsPhone(g, t)]) IN
   Sum([i \in DOMAIN utts |-> ED!Dist(Phone(Corpus[i].ref, p), Phone(Through(Corpus[i].hyp, 1, am), p))], 1)
StepWords(p) == Sum([i \in DOMAIN utts |-> Len(Phone(Corpus[i].ref, p))], 1)
TerErrors(p) == Sum([i \in DOMAIN utts |-> ED!Dist(Phone(Corpus[i].ref, p), Phone(Corpus[i].hyp, p))], 1)
Bool(b) == IF b THEN 1 ELSE 0
(* a perfect hypothesis has no error; errors are bounded                         *)
Sane == phase = "done" => \A m, r \in BOOLEAN :
  /\ (\A i \in DOMAIN utts : Prep(Corpus[i].ref, m, r) = Prep(Corpus[i].hyp, m, r)) <=> Errors(m, r) = 0
  /\ Errors(m, r) <= Sum([i \in DOMAIN utts |-> LET a == Len(Prep(Corpus[i].ref, m, r)) b == Len(Prep(Corpus[i].hyp, m, r)) IN IF a > b THEN a ELSE b], 1)
(* merging leaves as many tokens as there are boundaries, plus one               *)
MergeBounds == phase = "done" => \A i \in DOMAIN utts : Len(Merge(Corpus[i].ref, 1)) = 1 + Cardinality(Bounds(Corpus[i].ref, FALSE))
OverlapTotal == phase = "done" => \A a \in Tokens : Seen(a) => Best(a) # {}
(* mapping by overlap makes a perfect transcription of any renaming of the units     *)
StepSane == (phase = "done" /\ \A i \in DOMAIN utts : Corpus[i].ref = Corpus[i].hyp) => StepErrors(FALSE, FALSE) = 0 /\ TerErrors(TRUE) = 0
Emit == phase = "done" => PrintT("@@" \o ToJson(
  [utts |-> [i \in DOMAIN utts |-> [ref |-> Corpus[i].ref, hyp |-> Corpus[i].hyp, segments |-> Segments(utts[i].runs, 1, 0),
      merged |-> Merge(Corpus[i].hyp, 1),
      rb |-> [m \in 1..2 |-> Bounds(Corpus[i].ref, m = 2)], hb |-> [m \in 1..2 |-> Bounds(Corpus[i].hyp, m = 2)],
      known |-> (\A t \in 1..Len(Corpus[i].ref) : Corpus[i].ref[t] \in DOMAIN lex),
      phones |-> IF \A t \in 1..Len(Corpus[i].ref) : Corpus[i].ref[t] \in DOMAIN lex THEN Phones(Corpus[i].ref, 1) ELSE <<>>]],
   delta |-> delta,
   map |-> {<<t, map[t]>> : t \in DOMAIN map}, lex |-> {<<t, lex[t]>> : t \in DOMAIN lex},
   ter |-> [x \in 1..4 |-> LET m == x > 2 r == x % 2 = 0 IN [m |-> Bool(m), r |-> Bool(r), e |-> Errors(m, r), w |-> Words(m, r)]],
   unique |-> Bool(Unique), reduce |-> {<<t, lex[t][1]>> : t \in {x \in DOMAIN lex : Reduces(x)}},
   step |-> [x \in 1..6 |-> LET p == x % 2 = 0 IN [given |-> IF x > 4 THEN 2 ELSE Bool(x > 2), reduce |-> Bool(p), w |-> StepWords(p),
                                 e |-> IF x > 4 THEN TerErrors(p) ELSE StepErrors(x > 2, p)]],
   counts |-> {<<a, b, Overlap(a, b)>> : a, b \in Tokens},
   best |-> {<<a, Best(a)>> : a \in {x \in Tokens : Seen(x)}},
   starts |-> {<<a, Starts(a)>> : a \in Tokens}]))
===============================================================================
