----------------------------- MODULE EditDistance -----------------------------
(* C23: one token edited at a time.  Dist is the distance computed by the       *)
(* scoring; it is the least number of edits: no sequence of edits reaches a     *)
(* word in fewer (Bound), and one edit can always make one unit of progress     *)
(* (Progress).                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Tokens, MaxLen, MaxEdits
VARIABLES ref, word, n
vars == <<ref, word, n>>
Min2(a, b) == IF a < b THEN a ELSE b
(* row by row: D[j + 1] is the distance between the prefix of r and h[1 .. j]    *)
RECURSIVE Row(_, _, _, _, _)
Row(r, h, prev, i, acc) == IF Len(acc) = Len(h) + 1 THEN acc ELSE
  LET j == Len(acc) IN
  Row(r, h, prev, i, Append(acc, IF r[i] = h[j] THEN prev[j] ELSE 1 + Min2(prev[j], Min2(prev[j + 1], acc[j]))))
RECURSIVE Rows(_, _, _, _)
Rows(r, h, prev, i) == IF i > Len(r) THEN prev ELSE Rows(r, h, Row(r, h, prev, i, <<i>>), i + 1)
Dist(r, h) == Rows(r, h, [j \in 1..(Len(h) + 1) |-> j - 1], 1)[Len(h) + 1]
Sub(w, i, t) == [w EXCEPT ![i] = t]
Del(w, i) == SubSeq(w, 1, i - 1) \o SubSeq(w, i + 1, Len(w))
Ins(w, i, t) == SubSeq(w, 1, i) \o <<t>> \o SubSeq(w, i + 1, Len(w))
Edits(w) == {Sub(w, i, t) : i \in 1..Len(w), t \in Tokens} \cup {Del(w, i) : i \in 1..Len(w)}
            \cup {Ins(w, i, t) : i \in 0..Len(w), t \in Tokens}
Init == ref \in UNION {[1..k -> Tokens] : k \in 0..MaxLen} /\ word = ref /\ n = 0
Edit(w) == n < MaxEdits /\ Len(w) <= MaxLen /\ w # word /\ word' = w /\ n' = n + 1 /\ UNCHANGED ref
Next == \E w \in Edits(word) : Edit(w)
Bound == Dist(ref, word) <= n
Progress == Dist(ref, word) > 0 => \E w \in Edits(word) : Dist(ref, w) = Dist(ref, word) - 1
Zero == (Dist(ref, word) = 0) = (ref = word)
Symmetric == Dist(ref, word) = Dist(word, ref)
(* what the words have in common at either end costs nothing, however long: the replay pads words with hundreds of tokens *)
Common == \A t \in Tokens : /\ Dist(<<t>> \o ref, <<t>> \o word) = Dist(ref, word)
                          /\ Dist(Append(ref, t), Append(word, t)) = Dist(ref, word)
Emit == PrintT("@@" \o ToJson([r |-> ref, h |-> word, d |-> Dist(ref, word)]))
===============================================================================
