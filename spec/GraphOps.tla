----------------------------- MODULE GraphOps -----------------------------
(* Acoustic graphs (beer/graph.py): values and operations.                  *)
(* A graph is a record                                                      *)
(*   ids   : sequence of live state ids, in creation order                  *)
(*   pdf   : id -> density index, or None for a non-emitting state          *)
(*   arcs  : set of <<source, target, weight>> (weight a rational)          *)
(*   start, end, next : start / end state and next fresh id                 *)
EXTENDS Rat, TLC

None == -1

Arc(s, e, w) == <<s, e, w>>
Out(g, s) == {a \in g.arcs : a[1] = s}
In(g, s)  == {a \in g.arcs : a[2] = s}
HasArc(g, s, e) == \E a \in g.arcs : a[1] = s /\ a[2] = e
Live(g) == {g.ids[i] : i \in 1..Len(g.ids)}

EmptyGraph == [ids |-> <<>>, pdf |-> <<>>, arcs |-> {}, start |-> None, end |-> None, next |-> 0]

AddState(g, pdf) == [g EXCEPT !.ids = Append(@, g.next), !.pdf = @ @@ (g.next :> pdf), !.next = @ + 1]
AddArc(g, s, e, w) == [g EXCEPT !.arcs = @ \cup {Arc(s, e, w)}]

(* ---------------------------------------------------------------- replace *)
(* Substitute sub-graph h for state s of g: fresh copies of the states of h  *)
(* in creation order; arcs into s go to h's start, arcs out of s leave from  *)
(* h's end, a self-loop of s goes from h's end back to h's start.            *)
Replace(g, s, h) ==
  LET pos(x) == CHOOSE i \in 1..Len(h.ids) : h.ids[i] = x
      new(x) == g.next + pos(x) - 1
      src(x) == IF x = s THEN new(h.end) ELSE x
      dst(x) == IF x = s THEN new(h.start) ELSE x
      newids == [i \in 1..Len(h.ids) |-> g.next + i - 1]
      keep   == SelectSeq(g.ids, LAMBDA x : x # s)
      host   == {Arc(src(a[1]), dst(a[2]), a[3]) : a \in g.arcs}
      inner  == {Arc(new(a[1]), new(a[2]), a[3]) : a \in h.arcs}
  IN [ids   |-> keep \o newids,
      pdf   |-> [x \in Live(g) \ {s} |-> g.pdf[x]] @@ [x \in {newids[i] : i \in 1..Len(newids)} |-> h.pdf[h.ids[x - g.next + 1]]],
      arcs  |-> host \cup inner,
      start |-> IF g.start = s THEN new(h.start) ELSE g.start,
      end   |-> IF g.end = s THEN new(h.end) ELSE g.end,
      next  |-> g.next + Len(h.ids)]

(* -------------------------------------------------------------- normalize *)
OutWeight(g, s) == RSumOver(Out(g, s), LAMBDA a : a[3])
Normalize(g) == [g EXCEPT !.arcs = {Arc(a[1], a[2], RDiv(a[3], OutWeight(g, a[1]))) : a \in g.arcs}]

(* ------------------------------------------------- non-emitting path sums *)
Emitting(g, x) == g.pdf[x] # None
EmitSeq(g) == SelectSeq(g.ids, LAMBDA x : g.pdf[x] # None)

(* total weight of the paths s -> t (t emitting) whose inner states are all  *)
(* non-emitting and visited at most once                                     *)
RECURSIVE EpsForward(_, _, _, _)
EpsForward(g, s, t, seen) ==
  RSumOver(Out(g, s), LAMBDA a :
    IF a[2] = t /\ Emitting(g, t) THEN a[3]
    ELSE IF ~Emitting(g, a[2]) /\ a[2] \notin seen
         THEN RMul(a[3], EpsForward(g, a[2], t, seen \cup {a[2]}))
         ELSE RZero)

RECURSIVE EpsBackward(_, _, _, _)
EpsBackward(g, t, s, seen) ==       \* paths s -> t, walked from t
  RSumOver(In(g, t), LAMBDA a :
    IF a[1] = s /\ Emitting(g, s) THEN a[3]
    ELSE IF ~Emitting(g, a[1]) /\ a[1] \notin seen
         THEN RMul(a[3], EpsBackward(g, a[1], s, seen \cup {a[1]}))
         ELSE RZero)

(* no cycle made of non-emitting states only *)
RECURSIVE EpsReach(_, _, _)
EpsReach(g, frontier, seen) ==
  LET nxt == {a[2] : a \in {b \in g.arcs : b[1] \in frontier /\ ~Emitting(g, b[1]) /\ ~Emitting(g, b[2])}}
  IN IF nxt \subseteq seen THEN seen ELSE EpsReach(g, nxt, seen \cup nxt)
NoEpsCycle(g) == \A x \in Live(g) : ~Emitting(g, x) => x \notin EpsReach(g, {x}, {})

(* ---------------------------------------------------------------- compile *)
NormVec(v) == LET tot == RSumSeq(v) IN [i \in DOMAIN v |-> RDiv(v[i], tot)]

InitRaw(g)  == LET e == EmitSeq(g) IN [i \in 1..Len(e) |-> EpsForward(g, g.start, e[i], {g.start})]
FinalRaw(g) == LET e == EmitSeq(g) IN [i \in 1..Len(e) |-> EpsBackward(g, g.end, e[i], {g.end})]
TransRaw(g) == LET e == EmitSeq(g) IN [i \in 1..Len(e) |-> [j \in 1..Len(e) |-> EpsForward(g, e[i], e[j], {e[i]})]]

(* rows with a self-loop and another successor: keep the self-loop, rescale  *)
(* the rest to 1 - self-loop                                                 *)
RescaleRow(row, i) ==
  LET off == RSub(RSumSeq(row), row[i])
  IN IF RPos(row[i]) /\ RPos(off)
     THEN [j \in DOMAIN row |-> IF j = i THEN row[j] ELSE RDiv(RMul(row[j], RSub(ROne, row[i])), off)]
     ELSE row

Compilable(g) == Len(EmitSeq(g)) > 0 /\ RPos(RSumSeq(InitRaw(g))) /\ RPos(RSumSeq(FinalRaw(g)))

Compile(g) ==
  LET e == EmitSeq(g)
      t == TransRaw(g)
  IN [pdf   |-> [i \in 1..Len(e) |-> g.pdf[e[i]]],
      init  |-> NormVec(InitRaw(g)),
      final |-> NormVec(FinalRaw(g)),
      trans |-> [i \in 1..Len(e) |-> RescaleRow(t[i], i)]]

(* --------------------------------------------------------- path languages *)
(* all start -> end paths with at most n arcs, as sequences of state ids     *)
RECURSIVE PathsFrom(_, _, _, _)
PathsFrom(g, s, e, n) ==
  (IF s = e THEN {<<s>>} ELSE {}) \cup
  (IF n = 0 THEN {}
   ELSE UNION {{<<s>> \o p : p \in PathsFrom(g, a[2], e, n - 1)} : a \in Out(g, s)})
Paths(g, n) == PathsFrom(g, g.start, g.end, n)

RECURSIVE PathWeight(_, _)
PathWeight(g, p) == IF Len(p) < 2 THEN ROne
                    ELSE LET a == CHOOSE a \in g.arcs : a[1] = p[1] /\ a[2] = p[2]
                         IN RMul(a[3], PathWeight(g, Tail(p)))
WellFormed(g) == /\ \A a \in g.arcs : a[1] \in Live(g) /\ a[2] \in Live(g)
                 /\ g.start \in Live(g) /\ g.end \in Live(g)
                 /\ \A a, b \in g.arcs : (a[1] = b[1] /\ a[2] = b[2]) => a = b
============================================================================
