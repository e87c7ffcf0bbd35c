------------------------------- MODULE ModelLife -------------------------------
(* C31: models as objects.  A model (root) uses a set of densities and may own a      *)
(* parameter (weights); sets refer to parameters; sets are shared by models and       *)
(* parameters by sets.  Copying some models together (deep copy, pickle, file)        *)
(* reproduces their values and what they share, and nothing is shared with the         *)
(* originals.  Training a model gives its parameters new values which are a function   *)
(* of the values of the parameters of the model, of its kind and of the data -         *)
(* whatever the history of copies, casts, replacements and evaluations.  Values are     *)
(* interned: equal construction = equal value.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxRoots, MaxOps, NBatch, SetKinds, RootKinds, Methods
VARIABLES vals, params, sets, roots, last, hist, phase
vars == <<vals, params, sets, roots, last, hist, phase>>
(* vals: how a value came about; params: value of each parameter;                       *)
(* sets: [kind, ps]; roots: [kind, set, own] with own a sequence of at most one param    *)
NParams(k) == IF k \in {"mixtures", "joint"} THEN 2 ELSE 1
Owns(k) == IF k = "hmm" THEN 0 ELSE 1
Allowed(rk, sk) == rk = "mixture" => sk # "mixtures"
Dead == [kind |-> "none", set |-> 0, own |-> <<>>]
Live == {r \in DOMAIN roots : roots[r].kind # "none"}
ParamsOf(rt, r) == sets[rt[r].set].ps \o rt[r].own
Reach(r) == ParamsOf(roots, r)
InSeq(s) == {s[i] : i \in DOMAIN s}
(* intern the values defined by op, ins: one per slot                                    *)
Def(op, kind, sk, b, ins, slot) == [op |-> op, kind |-> kind, set |-> sk, b |-> b, ins |-> ins, slot |-> slot]
Find(vs, df) == {i \in DOMAIN vs : vs[i] = df}
RECURSIVE Intern(_, _)
Intern(vs, defs) == IF defs = <<>> THEN [vs |-> vs, ids |-> <<>>] ELSE
  LET df == Head(defs) f == Find(vs, df)
      vs2 == IF f = {} THEN Append(vs, df) ELSE vs
      id == IF f = {} THEN Len(vs2) ELSE CHOOSE i \in f : TRUE
      rest == Intern(vs2, Tail(defs))
  IN [vs |-> rest.vs, ids |-> <<id>> \o rest.ids]
State(rt) == [r \in DOMAIN rt |-> [kind |-> rt[r].kind, ids |-> <<>>]]
Snapshot(ps, ss, rt) == [r \in DOMAIN rt |-> IF rt[r].kind = "none" THEN <<>> ELSE
   LET q == ss[rt[r].set].ps \o rt[r].own IN [i \in DOMAIN q |-> ps[q[i]]]]
Rec(op) == [op EXCEPT !.snap = Snapshot(params', sets', roots')]
Op(n) == [op |-> n, r |-> 0, rs |-> <<>>, how |-> "", b |-> 0, snap |-> <<>>]
Init == vals = <<>> /\ params = <<>> /\ sets = <<>> /\ roots = <<>> /\ last = Op("none") /\ hist = <<>> /\ phase = "run"
Log(o) == last' = o /\ hist' = Append(hist, Rec(o))
Busy == phase = "run" /\ Len(hist) < MaxOps
(* a new model over new densities or over those of another model                          *)
Create(rk, sk) == Busy /\ Len(roots) < MaxRoots /\ Allowed(rk, sk) /\ hist = <<>>
  /\ LET n == NParams(sk) o == Owns(rk)
         defs == [i \in 1..(n + o) |-> Def("new", rk, sk, Len(roots) + 1, <<>>, i)]
         it == Intern(vals, defs)
     IN /\ vals' = it.vs /\ params' = params \o it.ids
        /\ sets' = Append(sets, [kind |-> sk, ps |-> [i \in 1..n |-> Len(params) + i]])
        /\ roots' = Append(roots, [kind |-> rk, set |-> Len(sets) + 1, own |-> [i \in 1..o |-> Len(params) + n + i]])
        /\ Log([Op("create") EXCEPT !.r = Len(roots) + 1, !.how = sk]) /\ UNCHANGED phase
Share(rk, r) == Busy /\ Len(roots) < MaxRoots /\ r \in Live /\ Allowed(rk, sets[roots[r].set].kind)
  /\ LET o == Owns(rk) it == Intern(vals, [i \in 1..o |-> Def("new", rk, sets[roots[r].set].kind, Len(roots) + 1, <<>>, NParams(sets[roots[r].set].kind) + i)])
     IN /\ vals' = it.vs /\ params' = params \o it.ids /\ UNCHANGED sets
        /\ roots' = Append(roots, [kind |-> rk, set |-> roots[r].set, own |-> [i \in 1..o |-> Len(params) + i]])
        /\ Log([Op("share") EXCEPT !.r = r]) /\ UNCHANGED phase
(* ---------------------------------------------------------------------- copies *)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SeqOf(S \ {m})
Pos(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Copy(R, how) == Busy /\ R # {} /\ R \subseteq Live /\ Len(roots) + Cardinality(R) <= MaxRoots
  /\ LET rs == SeqOf(R)
         ss == SeqOf({roots[r].set : r \in R})
         ps == SeqOf(UNION {InSeq(Reach(r)) : r \in R})
         newp(p) == Len(params) + Pos(ps, p)
         mapp(q) == [i \in DOMAIN q |-> newp(q[i])]
     IN /\ params' = params \o [i \in DOMAIN ps |-> params[ps[i]]]
        /\ sets' = sets \o [i \in DOMAIN ss |-> [sets[ss[i]] EXCEPT !.ps = mapp(@)]]
        /\ roots' = roots \o [i \in DOMAIN rs |-> [kind |-> roots[rs[i]].kind, set |-> Len(sets) + Pos(ss, roots[rs[i]].set), own |-> mapp(roots[rs[i]].own)]]
        /\ UNCHANGED <<vals, phase>> /\ Log([Op("copy") EXCEPT !.rs = rs, !.how = how])
(* -------------------------------------------------------------------- training *)
Train(r, b) == Busy /\ r \in Live
  /\ LET q == Reach(r)
         ins == [i \in DOMAIN q |-> params[q[i]]]
         it == Intern(vals, [i \in DOMAIN q |-> Def("fit", roots[r].kind, sets[roots[r].set].kind, b, ins, i)])
     IN /\ vals' = it.vs
        /\ params' = [p \in DOMAIN params |-> IF p \in InSeq(q) THEN it.ids[Pos(q, p)] ELSE params[p]]
        /\ UNCHANGED <<sets, roots, phase>> /\ Log([Op("train") EXCEPT !.r = r, !.b = b])
Evaluate(r, b) == Busy /\ r \in Live /\ UNCHANGED <<vals, params, sets, roots, phase>> /\ Log([Op("eval") EXCEPT !.r = r, !.b = b])
(* the densities of r take the parameters of those of s (all models of the set see it)       *)
Replace(r, s) == Busy /\ r \in Live /\ s \in Live /\ roots[r].set # roots[s].set
  /\ sets[roots[r].set].kind = sets[roots[s].set].kind /\ sets[roots[r].set].ps # sets[roots[s].set].ps
  /\ sets' = [sets EXCEPT ![roots[r].set].ps = sets[roots[s].set].ps]
  /\ UNCHANGED <<vals, params, roots, phase>> /\ Log([Op("replace") EXCEPT !.r = r, !.rs = <<s>>])
(* everything connected to r changes its floating point type together                         *)
RECURSIVE Closure(_)
Closure(R) == LET more == {s \in Live : \E r \in R : InSeq(Reach(r)) \cap InSeq(Reach(s)) # {} \/ roots[r].set = roots[s].set}
              IN IF more \subseteq R THEN R ELSE Closure(R \cup more)
Cast(r, how) == Busy /\ r \in Live /\ UNCHANGED <<vals, params, sets, roots, phase>>
  /\ Log([Op("cast") EXCEPT !.rs = SeqOf(Closure({r})), !.how = how])
Finish == phase = "run" /\ Len(hist) = MaxOps /\ phase' = "done" /\ UNCHANGED <<vals, params, sets, roots, last, hist>>
Some(S) == RandomElement(S)
Next == (\E rk \in RootKinds, sk \in SetKinds : Create(rk, sk))
     \/ (\E rk \in RootKinds, r \in Live : Share(rk, r))
     \/ (\E R \in SUBSET Live, how \in Methods : Cardinality(R) <= 2 /\ Copy(R, how))
     \/ (\E r \in Live, b \in 1..NBatch : Train(r, b) \/ Evaluate(r, b))
     \/ (\E r, s \in Live : Replace(r, s))
     \/ (\E r \in Live, how \in {"float", "double"} : Cast(r, how))
     \/ Finish
Spec == Init /\ [][Next]_vars
(* ----------------------------------------------------------------------- theorems *)
(* training a model changes no parameter it does not use                              *)
Isolation == [][last'.op = "train" /\ hist' # hist => \A p \in DOMAIN params : params'[p] # params[p] => p \in InSeq(Reach(last'.r))]_vars
(* only training changes values                                                       *)
Quiet == [][(hist' # hist /\ last'.op # "train") => \A p \in DOMAIN params : params'[p] = params[p]]_vars
(* a copy has the values and the sharing of what was copied, and shares nothing else   *)
Faithful == [][(hist' # hist /\ last'.op = "copy") =>
  LET rs == last'.rs n == Len(roots)
      V(r) == LET q == sets'[roots'[r].set].ps \o roots'[r].own IN [i \in DOMAIN q |-> params'[q[i]]]
      P(r) == InSeq(sets'[roots'[r].set].ps \o roots'[r].own)
  IN /\ \A i \in DOMAIN rs : V(n + i) = V(rs[i]) /\ roots'[n + i].kind = roots[rs[i]].kind
     /\ \A i, j \in DOMAIN rs : (roots'[n + i].set = roots'[n + j].set) <=> (roots[rs[i]].set = roots[rs[j]].set)
     /\ \A i, j \in DOMAIN rs : (P(n + i) \cap P(n + j) = {}) <=> (P(rs[i]) \cap P(rs[j]) = {})
     /\ \A i \in DOMAIN rs, r \in Live : P(n + i) \cap P(r) = {}]_vars
(* models of one kind with equal parameter values train to equal values: by interning,   *)
(* a value is determined by kind, data and inputs                                        *)
Interned == \A i, j \in DOMAIN vals : vals[i] = vals[j] => i = j
WellFormed == \A r \in Live : Len(Reach(r)) = NParams(sets[roots[r].set].kind) + Owns(roots[r].kind)
                              /\ Cardinality(InSeq(Reach(r))) = Len(Reach(r))
Emit == phase = "done" => PrintT("@@" \o ToJson([vals |-> vals, hist |-> hist, roots |-> [r \in DOMAIN roots |-> [kind |-> roots[r].kind, set |-> sets[roots[r].set].kind]]]))
===============================================================================
