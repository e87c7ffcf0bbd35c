------------------------------ MODULE LoopBuild ------------------------------
(* C09: the commands that build a phone loop, as a transition system: the      *)
(* configuration (groups), then the unit list line by line, then the boundary  *)
(* group, then mkphones / mkphoneloopgraph / mkdecodegraph / compilation.      *)
EXTENDS UnitLoop, Json, TLC

CONSTANTS Topos, NGroups, MaxUnits, MinUnits, LangLen

VARIABLES groups, units, boundary, stage
vars == <<groups, units, boundary, stage>>

Init == groups = <<>> /\ units = <<>> /\ boundary = 0 /\ stage = "conf"
AddGroup(t) == stage = "conf" /\ Len(groups) < NGroups /\ groups' = Append(groups, t) /\ UNCHANGED <<units, boundary, stage>>
EndConf == stage = "conf" /\ Len(groups) > 0 /\ stage' = "list" /\ UNCHANGED <<groups, units, boundary>>
AddUnit(g) == stage = "list" /\ Len(units) < MaxUnits /\ units' = Append(units, g) /\ UNCHANGED <<groups, boundary, stage>>
Choose(b) == /\ stage = "list" /\ Len(units) >= MinUnits
             /\ b = 0 \/ \E u \in 1..Len(units) : units[u] = b
             /\ \A g \in 1..Len(groups) : \E u \in 1..Len(units) : units[u] = g
             /\ boundary' = b /\ stage' = "built" /\ UNCHANGED <<groups, units>>
Next == (\E t \in Topos : AddGroup(t)) \/ EndConf \/ (\E g \in 1..Len(groups) : AddUnit(g)) \/ (\E b \in 0..Len(groups) : Choose(b))

Built == stage = "built"
U == 1..Len(units)
Compiled == Compile(DecodeGraph(groups, units, boundary))

Case == [groups |-> [g \in 1..Len(groups) |-> [n |-> Topo(groups[g]).n, arcs |-> Topo(groups[g]).arcs, id |-> groups[g]]],
         units |-> units, boundary |-> boundary, order |-> NumOrder(groups, units),
         start |-> [u \in U |-> FirstPdf(groups, units, u)], end |-> [u \in U |-> LastPdf(groups, units, u)],
         npdf |-> NPdf(groups, units), compiled |-> Compiled]
Emit == Built => PrintT("@@" \o ToJson(Case))

(* ------------------------------------------------ theorems about the spec *)
(* every emitting state has its own density, state i has density i            *)
Numbering == Built =>
  LET c == Compiled IN
  /\ Len(c.pdf) = NPdf(groups, units) /\ \A i \in DOMAIN c.pdf : c.pdf[i] = i - 1
  /\ \A u, v \in U : u # v => \/ LastPdf(groups, units, u) < FirstPdf(groups, units, v)
                              \/ LastPdf(groups, units, v) < FirstPdf(groups, units, u)
(* the loop accepts exactly the non-empty concatenations of unit traversals    *)
AcceptsLoop == Built =>
  Language(Compiled, LangLen) = UNION {ChainLang(groups, units, s, 1, LangLen) : s \in Allowed(units, boundary, LangLen)}
RowsStochastic == Built =>
  LET c == Compiled IN RSumSeq(c.init) = ROne /\ RSumSeq(c.final) = ROne /\
     \A i \in DOMAIN c.trans :
       (RPos(c.trans[i][i]) /\ \E j \in DOMAIN c.trans : j # i /\ RPos(c.trans[i][j])) => RSumSeq(c.trans[i]) = ROne
(* ------------------------------------------------- loops of many units ---- *)
(* Closed form of the compiled loop: what a row holds depends on the topology *)
(* of the unit, the group sizes and the boundary only, so a loop of any number *)
(* of units is assembled from one block per group and one per pair of groups. *)
NW(t, a, b) == LET out == {x \in t.arcs : x[1] = a}
                   tot == RSumOver(out, LAMBDA x : RQ(x[3], x[4]))
               IN RDiv(RSumOver({x \in out : x[2] = b}, LAMBDA x : RQ(x[3], x[4])), tot)
GT(g) == Topo(groups[g])
Em(g) == 1..NEm(GT(g))
Count(g) == Len(OfGroup(units, g))
EntryW(g, j) == NW(GT(g), 0, j)
ExitW(g, i) == NW(GT(g), i, GT(g).n - 1)
Through == IF boundary = 0 THEN RQ(1, Len(units) + 1) ELSE RQ(1, Len(units))
Back(g) == IF boundary = g THEN RQ(1, 2) ELSE ROne
Raw(g, i, h, j, same) ==
  RAdd(IF same THEN NW(GT(g), i, j) ELSE RZero, RMul(RMul(ExitW(g, i), Back(g)), RMul(Through, EntryW(h, j))))
RowOff(g, i) ==
  RSub(RAdd(RSumOver(Em(g), LAMBDA j : NW(GT(g), i, j)),
            RSumOver(1..Len(groups), LAMBDA h : RMul(R(Count(h)), RSumOver(Em(h), LAMBDA j : Raw(g, i, h, j, FALSE))))),
       Raw(g, i, g, i, TRUE))
RowScale(g, i) == LET d == Raw(g, i, g, i, TRUE) off == RowOff(g, i)
                  IN IF RPos(d) /\ RPos(off) THEN RDiv(RSub(ROne, d), off) ELSE ROne
Val(g, i, h, j, same) == IF same /\ i = j THEN Raw(g, i, h, j, TRUE) ELSE RMul(RowScale(g, i), Raw(g, i, h, j, same))
InB(g) == boundary = 0 \/ boundary = g
Share(g, w(_, _)) == LET tot == RSumOver({h \in 1..Len(groups) : InB(h)}, LAMBDA h : RMul(R(Count(h)), RSumOver(Em(h), LAMBDA j : w(h, j))))
                     IN [j \in Em(g) |-> IF InB(g) THEN RDiv(w(g, j), tot) ELSE RZero]
RECURSIVE Below(_)
Below(g) == IF g = 1 THEN 0 ELSE Below(g - 1) + Count(g - 1) * NEm(GT(g - 1))
(* first density of the k-th unit of group g *)
StartOf(g, k) == Below(g) + (k - 1) * NEm(GT(g))

Flat ==
  [init  |-> [g \in 1..Len(groups) |-> Share(g, EntryW)], final |-> [g \in 1..Len(groups) |-> Share(g, ExitW)],
   own   |-> [g \in 1..Len(groups) |-> [i \in Em(g) |-> [j \in Em(g) |-> Val(g, i, g, j, TRUE)]]],
   cross |-> [g \in 1..Len(groups) |-> [h \in 1..Len(groups) |-> [i \in Em(g) |-> [j \in Em(h) |-> Val(g, i, h, j, FALSE)]]]],
   below |-> [g \in 1..Len(groups) |-> Below(g)]]

Closed == Built =>
  LET c == TLCEval(Compiled)
      f == TLCEval(Flat)
      first(u) == StartOf(units[u], Pos(OfGroup(units, units[u]), u))
  IN \A u, v \in U :
       LET g == units[u] h == units[v] IN
       /\ first(u) = FirstPdf(groups, units, u)
       /\ \A i \in Em(g) :
            /\ c.init[first(u) + i] = f.init[g][i] /\ c.final[first(u) + i] = f.final[g][i]
            /\ \A j \in Em(h) : c.trans[first(u) + i][first(v) + j] = (IF u = v THEN f.own[g][i][j] ELSE f.cross[g][h][i][j])

EmitFlat == Built => PrintT("@@" \o ToJson(
  [many |-> TRUE, groups |-> [g \in 1..Len(groups) |-> [n |-> GT(g).n, arcs |-> GT(g).arcs, id |-> groups[g]]],
   units |-> units, boundary |-> boundary, npdf |-> NPdf(groups, units), flat |-> Flat]))
=============================================================================
