------------------------------- MODULE Sticks -------------------------------
(* C19: stick-breaking weights.  Each category i owns a stick Beta(a_i, b_i).   *)
(* An update with category counts n ranks the categories by decreasing count    *)
(* and adds to the prior of the stick of i its own count and the total count of *)
(* the categories ranked after i.  With a hyper-prior the second prior          *)
(* parameter is the current mean of a Gamma posterior refreshed from the sticks *)
(* after every update: those means are irrational, so b_i is kept as a linear   *)
(* form  c + g_1*gamma_1 + ... over the successive means gamma_1, gamma_2, ...   *)
(* A tied set shares the ranking of a root stick-breaking process.              *)
EXTENDS Rat, TLC, Json

CONSTANTS K,            \* number of categories
          Kinds,        \* subset of {"sb", "hp", "set"}
          MaxCount, MaxOps, Gammas, Rates, SetSize

VARIABLES kind, gamma0, ngam, post, rank, rows, hist, done, plan, draw
vars == <<kind, gamma0, ngam, post, rank, rows, hist, done>>

Cats == 1..K
Counts == [Cats -> 0..MaxCount]
(* all rankings compatible with the counts: order[r] is the category of rank r  *)
Perms == {p \in [Cats -> Cats] : \A i, j \in Cats : i # j => p[i] # p[j]}
Orders(n) == {p \in Perms : \A r \in 1..(K - 1) : n[p[r]] >= n[p[r + 1]]}
After(n, o, i) == LET r == CHOOSE r \in Cats : o[r] = i IN ISumOver((r + 1)..K, LAMBDA s : n[o[s]])
(* ties only between zero counts do not change the sticks                       *)
Determined(n) == \A i, j \in Cats : (i # j /\ n[i] = n[j]) => n[i] = 0

(* linear forms in gamma_1 .. gamma_ngam                                        *)
LF(c, g) == [c |-> c, g |-> g]
Unit(t) == LF(RZero, [k \in 1..t |-> IF k = t THEN ROne ELSE RZero])
Pad(f, t) == LF(f.c, [k \in 1..t |-> IF k <= Len(f.g) THEN f.g[k] ELSE RZero])
LAdd(f, h) == LET t == IF Len(f.g) > Len(h.g) THEN Len(f.g) ELSE Len(h.g)
                  p == Pad(f, t)  q == Pad(h, t)
              IN LF(RAdd(p.c, q.c), [k \in 1..t |-> RAdd(p.g[k], q.g[k])])
LScale(r, f) == LF(RMul(r, f.c), [k \in 1..Len(f.g) |-> RMul(r, f.g[k])])
Mix(r, old, new) == LAdd(LScale(RSub(ROne, r), old), LScale(r, new))

Prior == [a |-> ROne, b |-> IF kind = "hp" THEN Unit(ngam) ELSE LF(R(gamma0), <<>>)]
Updated(p, n, o, r) ==
  [i \in Cats |-> [a |-> RAdd(RMul(RSub(ROne, r), p[i].a), RMul(r, RAdd(Prior.a, R(n[i])))),
                   b |-> Mix(r, p[i].b, LAdd(Prior.b, LF(R(After(n, o, i)), <<>>)))]]
Fresh == [i \in Cats |-> [a |-> ROne, b |-> LF(R(gamma0), <<>>)]]
(* tied rows: prior and posterior kept as increments of counts                  *)
ZeroRow == [i \in Cats |-> <<0, 0>>]

Init == /\ kind \in Kinds /\ gamma0 \in Gammas /\ ngam = IF kind = "hp" THEN 1 ELSE 0
        /\ post = [i \in Cats |-> [a |-> ROne, b |-> LF(R(gamma0), <<>>)]]
        /\ rank = [i \in Cats |-> i] /\ rows = <<>> /\ hist = <<>> /\ done = FALSE

(* Only counts whose outcome does not depend on the tie-break continue the      *)
(* history; any counts may end it.                                             *)
Update(n, r, last) ==
  /\ ~done /\ Len(hist) < MaxOps
  /\ last \/ Determined(n)
  /\ (r # ROne) => Determined(n)
  /\ LET os == Orders(n)
         o  == CHOOSE x \in os : TRUE
     IN /\ post' = Updated(post, n, o, r)
        /\ rank' = o
        /\ hist' = Append(hist, [op |-> "update", n |-> n, r |-> r,
                                 alts |-> {[order |-> x, post |-> Updated(post, n, x, r)] : x \in os}])
        /\ ngam' = IF kind = "hp" THEN ngam + 1 ELSE ngam
  /\ done' = last
  /\ UNCHANGED <<kind, gamma0, rows>>

(* persistence: the state is unchanged                                         *)
Persist(how) == /\ ~done /\ Len(hist) < MaxOps - 1 /\ hist # <<>> /\ hist[Len(hist)].op = "update"
                /\ Determined(hist[Len(hist)].n)
                /\ hist' = Append(hist, [op |-> how]) /\ UNCHANGED <<kind, gamma0, ngam, post, rank, rows, done>>

Ups == SelectSeq(hist, LAMBDA h : h.op = "update")
RankKnown == IF Ups = <<>> THEN TRUE ELSE \A i, j \in Cats : i # j => Ups[Len(Ups)].n[i] # Ups[Len(Ups)].n[j]
(* update of the tied set: row j receives counts m[j], ranked as the root       *)
UpdateSet(m, r) ==
  /\ kind = "set" /\ ~done /\ Len(hist) < MaxOps
  /\ RankKnown
  /\ LET inc == [j \in 1..SetSize |-> [i \in Cats |-> <<m[j][i], After(m[j], rank, i)>>]]
     IN /\ rows' = inc
        /\ hist' = Append(hist, [op |-> "updateset", m |-> m, r |-> r, rank |-> rank, inc |-> inc])
  /\ UNCHANGED <<kind, gamma0, ngam, post, rank, done>>

Finish == ~done /\ hist # <<>> /\ done' = TRUE /\ UNCHANGED <<kind, gamma0, ngam, post, rank, rows, hist>>

BNext == \/ \E n \in Counts, r \in Rates, last \in BOOLEAN : Update(n, RQ(r, 4), last)
        \/ \E how \in {"pickle", "copy"} : Persist(how)
        \/ \E m \in [1..SetSize -> Counts], r \in Rates : UpdateSet(m, RQ(r, 4))
        \/ Finish
Next == BNext /\ UNCHANGED <<plan, draw>>
(* simulation: the kind of step is drawn first, then the counts one by one       *)
SInit == Init /\ plan = [op |-> "none"] /\ draw = <<>>
Plan(op, r, last) == plan.op = "none" /\ ~done /\ plan' = [op |-> op, r |-> r, last |-> last] /\ draw' = <<>> /\ UNCHANGED vars
Need == IF plan.op = "update" THEN K ELSE IF plan.op = "updateset" THEN K * SetSize ELSE 0
Draw(v) == Len(draw) < Need /\ draw' = Append(draw, v) /\ UNCHANGED <<vars, plan>>
Clear == plan' = [op |-> "none"] /\ draw' = <<>>
Do == /\ plan.op # "none" /\ Len(draw) = Need
      /\ CASE plan.op = "update" ->
                LET n == [i \in Cats |-> draw[i]] IN Update(n, IF Determined(n) THEN plan.r ELSE ROne, plan.last \/ ~Determined(n))
           [] plan.op = "updateset" -> UpdateSet([j \in 1..SetSize |-> [i \in Cats |-> draw[(j - 1) * K + i]]], plan.r)
           [] plan.op = "persist" -> Persist(plan.last)
      /\ Clear
SimNext == \/ \E r \in Rates : \E w \in 1..3 : Plan("update", RQ(r, 4), FALSE)
           \/ \E how \in {"pickle", "copy"} : Plan("persist", ROne, how)
           \/ kind = "set" /\ \E r \in Rates : Plan("updateset", RQ(r, 4), FALSE)
           \/ \E v \in 0..MaxCount : Draw(v)
           \/ Do
           \/ (plan.op # "none" /\ Len(draw) = Need /\ ~ENABLED Do /\ ~done /\ Clear /\ UNCHANGED vars)
           \/ Len(hist) = MaxOps /\ plan.op = "none" /\ Finish /\ UNCHANGED <<plan, draw>>

Emit == done => PrintT("@@" \o ToJson([kind |-> kind, K |-> K, gamma0 |-> gamma0, setsize |-> SetSize, hist |-> hist]))

(* ------------------------------------------------ theorems about the spec *)
(* sticks total: with full updates the mass given to the sticks of the          *)
(* categories is the count and every stick b collects what is ranked after       *)
Conserves == (hist # <<>> /\ hist[Len(hist)].op = "update" /\ hist[Len(hist)].r = ROne) =>
  LET h == hist[Len(hist)] IN
  \A x \in h.alts :
    /\ RSumSeq([i \in Cats |-> RSub(x.post[i].a, ROne)]) = R(ISumOver(Cats, LAMBDA i : h.n[i]))
    /\ \A r \in 1..(K - 1) :      \* b of rank r = (own + after) of rank r + 1
         RSub(x.post[x.order[r]].b.c, x.post[x.order[r + 1]].b.c) = R(h.n[x.order[r + 1]])
    /\ x.post[x.order[K]].b.c = (IF kind = "hp" THEN RZero ELSE R(gamma0))
(* counts multiplied by c: same rankings, and c times as much on top of the prior *)
Linear == (hist # <<>> /\ hist[Len(hist)].op = "update" /\ kind # "hp" /\ Cardinality({i \in 1..Len(hist) : hist[i].op = "update"}) = 1) =>
  LET h == hist[Len(hist)]
      n3 == [i \in Cats |-> 3 * h.n[i]] IN
  /\ Orders(n3) = Orders(h.n)
  /\ \A x \in h.alts : LET p3 == Updated(Fresh, n3, x.order, h.r) IN \A i \in Cats :
       /\ RSub(p3[i].a, ROne) = RMul(R(3), RSub(x.post[i].a, ROne))
       /\ RSub(p3[i].b.c, R(gamma0)) = RMul(R(3), RSub(x.post[i].b.c, R(gamma0)))
(* with more than zero counts tied, only then the outcome is open               *)
TieBreak == (hist # <<>> /\ hist[Len(hist)].op = "update" /\ Determined(hist[Len(hist)].n)) =>
  Cardinality({x.post : x \in hist[Len(hist)].alts}) = 1
=============================================================================
