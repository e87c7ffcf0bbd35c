------------------------------ MODULE AliBuild ------------------------------
(* C06: all transcriptions over small inventories: the alignment graph of a    *)
(* transcription accepts exactly the concatenations of one traversal per       *)
(* listed unit, in order.                                                     *)
EXTENDS UnitLoop, Json
CONSTANTS Topos, MaxUnits, MaxTrans, LangLen
VARIABLES groups, trans, done
vars == <<groups, trans, done>>
Units == [i \in 1..Len(groups) |-> i]        \* one unit per group
Init == groups = <<>> /\ trans = <<>> /\ done = FALSE
AddUnit(t) == trans = <<>> /\ ~done /\ Len(groups) < MaxUnits /\ groups' = Append(groups, t) /\ UNCHANGED <<trans, done>>
Token(u) == ~done /\ Len(trans) < MaxTrans /\ trans' = Append(trans, u) /\ UNCHANGED <<groups, done>>
Finish == ~done /\ trans # <<>> /\ done' = TRUE /\ UNCHANGED <<groups, trans>>
Next == (\E t \in Topos : AddUnit(t)) \/ (\E u \in 1..Len(groups) : Token(u)) \/ Finish
C == Compile(AliGraph(groups, Units, trans))
Emit == done => PrintT("@@" \o ToJson(
  [groups |-> [g \in 1..Len(groups) |-> [n |-> Topo(groups[g]).n, arcs |-> Topo(groups[g]).arcs, id |-> groups[g]]],
   units |-> Units, boundary |-> 0, trans |-> trans, npdf |-> NPdf(groups, Units),
   start |-> [u \in DOMAIN groups |-> FirstPdf(groups, Units, u)], end |-> [u \in DOMAIN groups |-> LastPdf(groups, Units, u)],
   compiled |-> C]))
Accepts == done => Language(C, LangLen) = ChainLang(groups, Units, trans, 1, LangLen)
(* position by position: the states of the graph are those of the listed units, *)
(* in order, each listed unit contributing its own copy                        *)
RECURSIVE Densities(_)
Densities(k) == IF k > Len(trans) THEN <<>>
                ELSE [i \in 1..NEm(Topo(groups[trans[k]])) |-> FirstPdf(groups, Units, trans[k]) + i - 1] \o Densities(k + 1)
Copies == done => C.pdf = Densities(1)
(* the rows of the k-th listed unit depend on it and its successor only: the graph *)
(* of a long transcription is put together from those of pairs (the replay does so *)
(* for transcriptions of more than a hundred units)                              *)
Offset(k) == ISumSeq([i \in 1..(k - 1) |-> NEm(Topo(groups[trans[i]]))])
Windows == done => \A k \in 1..Len(trans) :
  LET cw == Compile(AliGraph(groups, Units, SubSeq(trans, k, IF k = Len(trans) THEN k ELSE k + 1)))
      o == Offset(k) IN
  \A i \in 1..NEm(Topo(groups[trans[k]])), j \in DOMAIN C.pdf :
     C.trans[o + i][j] = IF o < j /\ j <= o + Len(cw.pdf) THEN cw.trans[i][j - o] ELSE RZero
OneEntryOneExit == done =>
  /\ C.init = [i \in DOMAIN C.pdf |-> IF i = 1 THEN ROne ELSE RZero]
  /\ C.final = [i \in DOMAIN C.pdf |-> IF i = Len(C.pdf) THEN ROne ELSE RZero]
=============================================================================
