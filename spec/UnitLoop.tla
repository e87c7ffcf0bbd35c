------------------------------ MODULE UnitLoop ------------------------------
(* The chain of commands that turns a list of units into a decoding graph     *)
(* (beer hmm mkphones, mkphoneloopgraph, mkdecodegraph) and a transcription    *)
(* into an alignment graph (mkaligraph): value-level definitions.             *)
(*   groups : sequence of topologies, in configuration order                  *)
(*   units  : sequence of group indices, in the order of the unit list; a      *)
(*            unit is identified by its position in that list                 *)
EXTENDS GraphOps

(* A topology: number of states and arcs <<source, target, num, den>>; the     *)
(* first and the last state are non-emitting.                                 *)
Topo(k) ==
  CASE k = 1 -> [n |-> 3, arcs |-> {<<0,1,1,1>>, <<1,1,1,2>>, <<1,2,1,2>>}]
    [] k = 2 -> [n |-> 4, arcs |-> {<<0,1,1,1>>, <<1,1,3,4>>, <<1,2,1,4>>, <<2,2,1,2>>, <<2,3,1,2>>}]
    [] k = 3 -> [n |-> 5, arcs |-> {<<0,1,1,1>>, <<1,1,3,4>>, <<1,2,1,4>>, <<2,2,3,4>>, <<2,3,1,4>>, <<3,3,3,4>>, <<3,4,1,4>>}]
    [] k = 4 -> [n |-> 5, arcs |-> {<<0,1,1,1>>, <<1,1,1,2>>, <<1,2,1,4>>, <<1,3,1,4>>, <<2,2,1,2>>, <<2,3,1,2>>, <<3,3,1,2>>, <<3,4,1,2>>}]
    [] k = 5 -> [n |-> 4, arcs |-> {<<0,1,1,1>>, <<1,2,1,1>>, <<2,3,1,1>>}]
    [] k = 6 -> [n |-> 4, arcs |-> {<<0,1,2,1>>, <<1,1,3,1>>, <<1,2,1,1>>, <<2,2,1,1>>, <<2,3,4,1>>, <<2,1,1,1>>}]
    [] k = 7 -> [n |-> 4, arcs |-> {<<0,1,1,1>>, <<1,1,1,2>>, <<1,2,1,2>>, <<2,2,99,100>>, <<2,3,1,100>>}]

NEm(t) == t.n - 2
Pos(seq, x) == CHOOSE i \in DOMAIN seq : seq[i] = x

(* Units are numbered group by group (configuration order), inside a group in  *)
(* list order.                                                                *)
OfGroup(units, g) == SelectSeq([i \in 1..Len(units) |-> i], LAMBDA u : units[u] = g)
RECURSIVE Cat(_, _, _)
Cat(units, g, n) == IF g > n THEN <<>> ELSE OfGroup(units, g) \o Cat(units, g + 1, n)
NumOrder(groups, units) == Cat(units, 1, Len(groups))

UTopo(groups, units, u) == Topo(groups[units[u]])
RECURSIVE FirstPdfAt(_, _, _)
FirstPdfAt(groups, units, k) ==           \* k: rank in the numbering order
  IF k = 1 THEN 0
  ELSE FirstPdfAt(groups, units, k - 1) + NEm(UTopo(groups, units, NumOrder(groups, units)[k - 1]))
FirstPdf(groups, units, u) == FirstPdfAt(groups, units, Pos(NumOrder(groups, units), u))
LastPdf(groups, units, u) == FirstPdf(groups, units, u) + NEm(UTopo(groups, units, u)) - 1
NPdf(groups, units) == ISumSeq([u \in 1..Len(units) |-> NEm(UTopo(groups, units, u))])

UnitGraph(groups, units, u) ==
  LET t == UTopo(groups, units, u)
      f == FirstPdf(groups, units, u)
  IN [ids   |-> [i \in 1..t.n |-> i - 1],
      pdf   |-> [x \in 0..(t.n - 1) |-> IF x = 0 \/ x = t.n - 1 THEN None ELSE f + x - 1],
      arcs  |-> {Arc(a[1], a[2], RQ(a[3], a[4])) : a \in t.arcs},
      start |-> 0, end |-> t.n - 1, next |-> t.n]

(* ------------------------------------------------------------ loop graph  *)
(* states 0 start, 1 end, 2 pivot, 3.. one per unit in list order; boundary 0: *)
(* the loop starts and ends in the pivot, otherwise in units of that group     *)
LoopGraph(units, boundary) ==
  LET n == Len(units)
      us(u) == u + 2
      inner == UNION {{Arc(2, us(u), ROne), Arc(us(u), 2, ROne)} : u \in 1..n}
      outer == IF boundary = 0 THEN {Arc(0, 2, ROne), Arc(2, 1, ROne)}
               ELSE UNION {{Arc(0, us(u), ROne), Arc(us(u), 1, ROne)} : u \in {v \in 1..n : units[v] = boundary}}
  IN [ids |-> [i \in 1..(n + 3) |-> i - 1], pdf |-> [x \in 0..(n + 2) |-> None],
      arcs |-> inner \cup outer, start |-> 0, end |-> 1, next |-> n + 3]

RECURSIVE ReplaceAll(_, _, _, _, _)
ReplaceAll(g, groups, units, order, k) ==
  IF k > Len(order) THEN g
  ELSE ReplaceAll(Replace(g, order[k] + 2, UnitGraph(groups, units, order[k])), groups, units, order, k + 1)

DecodeGraph(groups, units, boundary) ==
  Normalize(ReplaceAll(Normalize(LoopGraph(units, boundary)), groups, units, NumOrder(groups, units), 1))

(* ------------------------------------------------------ alignment graphs  *)
ChainGraph(n) == [ids |-> [i \in 1..(n + 2) |-> i - 1], pdf |-> [x \in 0..(n + 1) |-> None],
                  arcs |-> {Arc(i, i + 1, ROne) : i \in 0..n}, start |-> 0, end |-> n + 1, next |-> n + 2]
RECURSIVE ReplaceChain(_, _, _, _, _)
ReplaceChain(g, groups, units, trans, k) ==
  IF k > Len(trans) THEN g
  ELSE ReplaceChain(Replace(g, k, UnitGraph(groups, units, trans[k])), groups, units, trans, k + 1)
AliGraph(groups, units, trans) == Normalize(ReplaceChain(ChainGraph(Len(trans)), groups, units, trans, 1))

(* -------------------------------------------------------------- languages *)
(* density sequences of length <= L accepted by a compiled graph              *)
RECURSIVE StateSeqs(_, _)
StateSeqs(c, L) ==                          \* state sequences from an initial state, length exactly L
  IF L = 1 THEN {<<i>> : i \in {j \in DOMAIN c.init : RPos(c.init[j])}}
  ELSE UNION {{Append(p, j) : j \in {k \in DOMAIN c.init : RPos(c.trans[p[L - 1]][k])}} : p \in StateSeqs(c, L - 1)}
Accepted(c, L) == {p \in StateSeqs(c, L) : RPos(c.final[p[Len(p)]])}
Labels(c, p) == [i \in DOMAIN p |-> c.pdf[p[i]]]
Language(c, L) == UNION {{Labels(c, p) : p \in Accepted(c, k)} : k \in 1..L}
RECURSIVE PathMass(_, _, _)
PathMass(c, p, k) == IF k = 1 THEN c.init[p[1]] ELSE RMul(PathMass(c, p, k - 1), c.trans[p[k - 1]][p[k]])

(* density sequences of one traversal of unit u, length <= L                  *)
RECURSIVE UWalks(_, _, _, _)
UWalks(g, x, L, f) ==                       \* emitting walks from state x to the end
  (IF HasArc(g, x, g.end) THEN {<<g.pdf[x]>>} ELSE {}) \cup
  (IF L <= 1 THEN {}
   ELSE UNION {{<<g.pdf[x]>> \o w : w \in UWalks(g, a[2], L - 1, f)} : a \in {b \in Out(g, x) : b[2] # g.end}})
Traversals(groups, units, u, L) == LET g == UnitGraph(groups, units, u) IN UWalks(g, 1, L, 0)

RECURSIVE ChainLang(_, _, _, _, _)
ChainLang(groups, units, trans, k, L) ==    \* concatenations of traversals of trans[k..]
  IF k > Len(trans) THEN {<<>>}
  ELSE IF L < 1 THEN {}
  ELSE UNION {{w \o v : v \in ChainLang(groups, units, trans, k + 1, L - Len(w))}
              : w \in Traversals(groups, units, trans[k], L)}

(* transcriptions of at most m units allowed by the boundary group             *)
RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, m) == IF m = 0 THEN {<<>>} ELSE LET r == SeqsUpTo(S, m - 1) IN r \cup UNION {{Append(s, x) : x \in S} : s \in {t \in r : Len(t) = m - 1}}
Allowed(units, boundary, m) ==
  {s \in SeqsUpTo(1..Len(units), m) : s # <<>> /\ (boundary = 0 \/ (units[s[1]] = boundary /\ units[s[Len(s)]] = boundary))}
=============================================================================
