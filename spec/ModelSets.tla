------------------------------ MODULE ModelSets ------------------------------
(* C20: sets of densities as trees.  A set denotes the sequence of its columns   *)
(* (a column is a density or a mixture of densities); plain, concatenated,       *)
(* repeated, reorderable and mixture sets define it from their parts.  GetI and  *)
(* GetS are the recursive index / slice computations on the parts; the theorems  *)
(* say they select exactly the columns asked for, that slices compose, and that  *)
(* iteration by index enumerates the columns once.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLeaves, MaxLeafLen, MaxRep, MaxComps, MaxOps, MaxUpdates, MaxNodes

VARIABLES pool, next, wnext, nodes, root, ops, view, phase
vars == <<pool, next, wnext, nodes, root, ops, view, phase>>

Null == [t |-> "none"]
Dens(c) == [w |-> 0, cs |-> <<c>>]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE Cols(_)
Cols(n) ==
  CASE n.t = "leaf" -> [i \in 1..Len(n.ids) |-> Dens(n.ids[i])]
    [] n.t = "joint" -> Cat([i \in 1..Len(n.subs) |-> Cols(n.subs[i])])
    [] n.t = "rep" -> Cat([i \in 1..n.n |-> Cols(n.sub)])
    [] n.t = "dyn" -> Cols(n.sub)
    [] n.t = "mix" -> LET c == Cols(n.sub) IN
         [m \in 1..Len(n.ws) |-> [w |-> n.ws[m], cs |-> Cat([j \in 1..n.k |-> c[(m - 1) * n.k + j].cs])]]
Size(n) == Len(Cols(n))
IsMix(n) == Cols(n)[1].w # 0

(* ---------------------------------------------- the recursive computations *)
(* slices [a, b) and indices from zero; "bad" where a set does not support it   *)
Bad == [t |-> "bad"]
RECURSIVE GetS(_, _, _)
RECURSIVE JointS(_, _, _)
GetS(n, a, b) ==
  CASE n.t = "leaf" -> [t |-> "leaf", ids |-> SubSeq(n.ids, a + 1, b)]
    [] n.t = "joint" -> LET p == JointS(n.subs, a, b) IN
         IF \E i \in 1..Len(p) : p[i].t = "bad" THEN Bad
         ELSE IF Len(p) = 1 THEN p[1] ELSE [t |-> "joint", subs |-> p]
    [] n.t = "rep" -> LET l == Size(n.sub) IN
         IF a \div l # (b - 1) \div l THEN Bad ELSE GetS(n.sub, a % l, ((b - 1) % l) + 1)
    [] n.t = "dyn" -> GetS(n.sub, a, b)
    [] n.t = "mix" -> LET s == GetS(n.sub, a * n.k, b * n.k) IN
         IF s.t = "bad" THEN Bad ELSE [t |-> "mix", ws |-> SubSeq(n.ws, a + 1, b), k |-> n.k, sub |-> s]
JointS(subs, a, b) ==
  IF subs = <<>> \/ b <= 0 THEN <<>> ELSE
  LET l == Size(Head(subs)) rest == JointS(Tail(subs), a - l, b - l)
      lo == IF a < 0 THEN 0 ELSE a hi == IF b > l THEN l ELSE b
  IN IF lo >= hi THEN rest ELSE <<GetS(Head(subs), lo, hi)>> \o rest
RECURSIVE GetI(_, _)
GetI(n, i) ==
  CASE n.t = "leaf" -> Dens(n.ids[i + 1])
    [] n.t = "joint" -> LET l == Size(Head(n.subs)) IN
         IF i < l THEN GetI(Head(n.subs), i) ELSE GetI([n EXCEPT !.subs = Tail(@)], i - l)
    [] n.t = "rep" -> GetI(n.sub, i % Size(n.sub))
    [] n.t = "dyn" -> GetI(n.sub, i)
    [] n.t = "mix" -> LET s == GetS(n.sub, i * n.k, (i + 1) * n.k) IN
         IF s.t = "bad" THEN Bad ELSE [w |-> n.ws[i + 1], cs |-> Cat([j \in 1..n.k |-> Cols(s)[j].cs])]

(* ------------------------------------------------------------- behaviour *)
Init == pool = <<>> /\ next = 1 /\ wnext = 1 /\ nodes = 0 /\ root = Null /\ ops = <<>> /\ view = Null /\ phase = "build"
Leaf == phase = "build" /\ Len(pool) < MaxLeaves /\ nodes < MaxNodes /\ \E l \in 1..MaxLeafLen :
  /\ pool' = Append(pool, [t |-> "leaf", ids |-> [i \in 1..l |-> next + i - 1]])
  /\ next' = next + l /\ nodes' = nodes + 1 /\ UNCHANGED <<wnext, root, ops, view, phase>>
(* the last two (or all) sets of the pool are concatenated *)
Joint == phase = "build" /\ Len(pool) >= 2 /\ nodes < MaxNodes /\ \E k \in 2..Len(pool) :
  LET tail == SubSeq(pool, Len(pool) - k + 1, Len(pool)) IN
  /\ \A i \in 1..k : IsMix(tail[i]) = IsMix(tail[1])
  /\ pool' = Append(SubSeq(pool, 1, Len(pool) - k), [t |-> "joint", subs |-> tail])
  /\ nodes' = nodes + 1 /\ UNCHANGED <<next, wnext, root, ops, view, phase>>
Top == pool[Len(pool)]
ReplaceTop(n) == pool' = [pool EXCEPT ![Len(pool)] = n] /\ nodes' = nodes + 1 /\ UNCHANGED <<next, root, ops, view, phase>>
Rep == phase = "build" /\ pool # <<>> /\ nodes < MaxNodes /\ \E k \in 1..MaxRep :
  ReplaceTop([t |-> "rep", sub |-> Top, n |-> k]) /\ UNCHANGED wnext
Dyn == phase = "build" /\ pool # <<>> /\ nodes < MaxNodes /\ ReplaceTop([t |-> "dyn", sub |-> Top]) /\ UNCHANGED wnext
Mix == phase = "build" /\ pool # <<>> /\ nodes < MaxNodes /\ ~IsMix(Top) /\ \E k \in 1..MaxComps :
  /\ Size(Top) % k = 0
  /\ LET m == Size(Top) \div k IN
     /\ ReplaceTop([t |-> "mix", sub |-> Top, k |-> k, ws |-> [i \in 1..m |-> wnext + i - 1]])
     /\ wnext' = wnext + m
Choose == phase = "build" /\ Len(pool) = 1 /\ root' = Top /\ view' = Top /\ phase' = "view"
  /\ UNCHANGED <<pool, next, wnext, nodes, ops>>
Slice == phase = "view" /\ Len(ops) < MaxOps /\ \E a \in 0..(Size(view) - 1), b \in 1..Size(view) :
  /\ a < b /\ GetS(view, a, b).t # "bad"
  /\ view' = GetS(view, a, b) /\ ops' = Append(ops, [op |-> "slice", a |-> a, b |-> b, cols |-> SubSeq(Cols(view), a + 1, b)])
  /\ UNCHANGED <<pool, next, wnext, nodes, root, phase>>
(* training changes every parameter of the set; models extracted afterwards are    *)
(* those of the columns as they are now                                           *)
Updates(o) == Cardinality({i \in 1..Len(o) : o[i].op = "update"})
Update == phase = "view" /\ Len(ops) < MaxOps /\ Updates(ops) < MaxUpdates
  /\ view' = root /\ ops' = Append(ops, [op |-> "update", a |-> 0, b |-> Size(root), cols |-> Cols(root)])
  /\ UNCHANGED <<pool, next, wnext, nodes, root, phase>>
Finish == phase = "view" /\ phase' = "done" /\ UNCHANGED <<pool, next, wnext, nodes, root, ops, view>>
Next == Leaf \/ Joint \/ Rep \/ Dyn \/ Mix \/ Choose \/ Slice \/ Update \/ Finish

(* ------------------------------------------------------------- theorems *)
Chosen == phase \in {"view", "done"}
IndexRight == Chosen => \A i \in 0..(Size(view) - 1) : GetI(view, i) # Bad => GetI(view, i) = Cols(view)[i + 1]
SliceRight == Chosen => \A a \in 0..(Size(view) - 1), b \in 1..Size(view) :
  (a < b /\ GetS(view, a, b) # Bad) => Cols(GetS(view, a, b)) = SubSeq(Cols(view), a + 1, b)
(* the view after any number of slices holds the columns of the composed range  *)
ViewRight == (Chosen /\ ops # <<>>) => Cols(view) = ops[Len(ops)].cols
IndexOfSlice == Chosen => \A a \in 0..(Size(view) - 1), b \in 1..Size(view) :
  (a < b /\ GetS(view, a, b) # Bad) => \A i \in 0..(b - a - 1) :
     LET x == GetI(GetS(view, a, b), i) IN x # Bad => x = Cols(view)[a + i + 1]
Emit == phase = "done" => PrintT("@@" \o ToJson([root |-> root, ops |-> ops, cols |-> Cols(root),
          index |-> [i \in 1..Size(root) |-> GetI(root, i - 1) # Bad]]))
=============================================================================
