---------------------------- MODULE GraphCompile ----------------------------
(* C02: from an arbitrary graph to the inference graph.  A graph is built arc *)
(* by arc; when it has no cycle of non-emitting states it can be compiled.    *)
(* Each finished behaviour is printed with the compiled probabilities.        *)
EXTENDS GraphOps, Json

CONSTANTS Inner, MaxArcs, MinArcs, Weights, AllowNormalize, Depth

VARIABLES g, arcs, norm, done
vars == <<g, arcs, norm, done>>

HostPdf(em) == [x \in 0..(Inner + 1) |-> IF x < 2 THEN None
                                         ELSE IF x \in em THEN 10 * ((x * 3) % 7) + x ELSE None]
Host(em) == [ids |-> [i \in 1..(Inner + 2) |-> i - 1], pdf |-> HostPdf(em), arcs |-> {},
             start |-> 0, end |-> 1, next |-> Inner + 2]

Init == /\ \E em \in SUBSET (2..(Inner + 1)) :
             /\ em # {}
             /\ g = Host(em)
        /\ arcs = <<>> /\ norm = FALSE /\ done = FALSE

Code(s, e) == s * 50 + e
Last == IF arcs = <<>> THEN -1 ELSE Code(arcs[Len(arcs)][1], arcs[Len(arcs)][2])

Connect(s, e, w) ==
  /\ ~done /\ ~norm /\ Len(arcs) < MaxArcs
  /\ Code(s, e) > Last
  /\ s # g.end /\ e # g.start
  /\ g' = AddArc(g, s, e, RQ(w, 8))
  /\ NoEpsCycle(g')
  /\ arcs' = Append(arcs, <<s, e, w>>)
  /\ UNCHANGED <<norm, done>>

SelfLoopsAreProbabilities == LET t == TransRaw(g) IN \A i \in DOMAIN t : RLe(t[i][i], ROne)

DoNormalize == /\ AllowNormalize /\ ~done /\ ~norm /\ Len(arcs) >= MinArcs
               /\ norm' = TRUE /\ g' = Normalize(g) /\ UNCHANGED <<arcs, done>>

Finish == /\ ~done /\ Len(arcs) >= MinArcs /\ Compilable(g) /\ SelfLoopsAreProbabilities
          /\ done' = TRUE /\ UNCHANGED <<g, arcs, norm>>

Next == \/ \E s, e \in Live(g), w \in Weights : Connect(s, e, w)
        \/ DoNormalize \/ Finish

(* simulation variant: arcs in any order, finishing only once                 *)
AnyConnect(s, e, w) ==
  /\ ~done /\ ~norm /\ Len(arcs) < MaxArcs
  /\ ~HasArc(g, s, e) /\ s # g.end /\ e # g.start
  /\ g' = AddArc(g, s, e, RQ(w, 8)) /\ NoEpsCycle(g')
  /\ arcs' = Append(arcs, <<s, e, w>>) /\ UNCHANGED <<norm, done>>
SimNext == \/ \E s, e \in Live(g), w \in Weights : AnyConnect(s, e, w)
           \/ Len(arcs) = MaxArcs /\ (DoNormalize \/ Finish)

GJ == [pdf |-> [i \in 1..Len(g.ids) |-> g.pdf[g.ids[i]]], arcs |-> arcs, norm |-> norm, compiled |-> Compile(g)]
Emit == done => PrintT("@@" \o ToJson(GJ))

(* ------------------------------------------------ theorems about the spec *)
Stochastic == done =>
  LET c == Compile(g) IN
  /\ RSumSeq(c.init) = ROne /\ RSumSeq(c.final) = ROne
  /\ \A i \in DOMAIN c.trans : (RPos(c.trans[i][i]) /\ c.trans[i] # [c.trans[i] EXCEPT ![i] = RZero] /\
                                \E j \in DOMAIN c.trans : j # i /\ RPos(c.trans[i][j]))
                               => RSumSeq(c.trans[i]) = ROne
(* forward and backward exploration of non-emitting paths agree               *)
BothWays == done => \A s, t \in {x \in Live(g) : Emitting(g, x)} :
                        EpsForward(g, s, t, {s}) = EpsBackward(g, t, s, {t})
(* path-sum theorem: the transition weights are the total weights of the      *)
(* bounded non-emitting paths of the graph                                    *)
PathSums == done => \A s, t \in {x \in Live(g) : Emitting(g, x)} :
   EpsForward(g, s, t, {s}) =
     RSumOver({p \in PathsFrom(g, s, t, Inner + 1) :
                 /\ Len(p) >= 2
                 /\ \A i \in 2..(Len(p) - 1) : ~Emitting(g, p[i])}, LAMBDA p : PathWeight(g, p))
(* an arc written as a chain of non-emitting states whose weights multiply to    *)
(* its own weight is the same arc: the replay uses chains of many states with    *)
(* very large and very small weights                                            *)
Divided(h, a) == LET n == h.next m == AddState(h, None) IN
  [m EXCEPT !.arcs = (@ \ {a}) \cup {Arc(a[1], n, RMul(RQ(1, 2), a[3])), Arc(n, a[2], R(2))}]
Subdivide == done => LET a == CHOOSE x \in g.arcs : TRUE IN Compile(Divided(g, a)) = Compile(g)
============================================================================
