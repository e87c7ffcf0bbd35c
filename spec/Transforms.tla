------------------------------ MODULE Transforms ------------------------------
(* C21: the maps between embeddings and parameter vectors, sample by sample:   *)
(* affine y = W'x + b, linear y = W'x, hierarchical: W and b are themselves    *)
(* read out of vectors generated by an affine root from the map's embedding.   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxIn, MaxOut, MaxN, MaxRoot, MaxS, Seeds
VARIABLES c, phase
vars == <<c, phase>>
H(k) == ((k * 7919 + (k \div 7) * 104729 + c.seed * 31337) % 19) - 9
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
X(i, l) == H(i * 101 + l)
(* affine / linear: the parameters of sample s                                *)
W(s, l, q) == H(3000 + s * 211 + l * 17 + q)
B(s, q) == IF c.kind = "linear" THEN 0 ELSE H(9000 + s * 223 + q)
(* hierarchical: sample a of the map's embedding, sample s of the root          *)
Q == (c.nin + 1) * c.nout
R(s, z, q) == H(5000 + s * 307 + z * 53 + q)
RB(s, q) == H(12000 + s * 311 + q)
Z(a, z) == H(20000 + a * 29 + z)
Gen(a, s, q) == SumTo([z \in 1..c.root |-> R(s, z, q) * Z(a, z)], c.root) + RB(s, q)
Wh(a, s, l, q) == Gen(a, s, (l - 1) * c.nout + q)
Bh(a, s, q) == Gen(a, s, c.nin * c.nout + q)
Flat == c.kind # "hier"
NS == IF Flat THEN c.s ELSE c.a * c.s
(* samples of the map's embedding vary slowest                                *)
Y(i, j, q) == IF Flat THEN SumTo([l \in 1..c.nin |-> W(j, l, q) * X(i, l)], c.nin) + B(j, q)
  ELSE LET a == ((j - 1) \div c.s) + 1 s == ((j - 1) % c.s) + 1 IN
       SumTo([l \in 1..c.nin |-> Wh(a, s, l, q) * X(i, l)], c.nin) + Bh(a, s, q)
Init == phase = "pick" /\ c = [kind |-> "?"]
Next == phase = "pick" /\ phase' = "done" /\ \E kind \in {"affine", "linear", "hier"}, nin \in 1..MaxIn, nout \in 1..MaxOut, n \in 1..MaxN, s \in 1..MaxS, seed \in 1..Seeds :
  \/ kind # "hier" /\ c' = [kind |-> kind, nin |-> nin, nout |-> nout, n |-> n, s |-> s, seed |-> seed, a |-> 1, root |-> 1]
  \/ kind = "hier" /\ \E a \in 1..MaxS, root \in 1..MaxRoot : c' = [kind |-> kind, nin |-> nin, nout |-> nout, n |-> n, s |-> s, seed |-> seed, a |-> a, root |-> root]
Done == phase = "done"
(* the weights and the bias partition the generated vector                     *)
Partition == (Done /\ ~Flat) => {(l - 1) * c.nout + q : l \in 1..c.nin, q \in 1..c.nout} \cup {c.nin * c.nout + q : q \in 1..c.nout} = 1..Q
(* a zero input gives the bias; maps are affine in the input                    *)
Affine == Done => \A j \in 1..NS, q \in 1..c.nout : c.n >= 2 =>
  Y(1, j, q) - Y(2, j, q) = SumTo([l \in 1..c.nin |-> (IF Flat THEN W(j, l, q) ELSE Wh(((j - 1) \div c.s) + 1, ((j - 1) % c.s) + 1, l, q)) * (X(1, l) - X(2, l))], c.nin)
Emit == Done => PrintT("@@" \o ToJson([c |-> c, x |-> [i \in 1..c.n |-> [l \in 1..c.nin |-> X(i, l)]],
   w |-> IF Flat THEN [s \in 1..c.s |-> [l \in 1..c.nin |-> [q \in 1..c.nout |-> W(s, l, q)]]] ELSE [s \in 1..c.s |-> [z \in 1..c.root |-> [q \in 1..Q |-> R(s, z, q)]]],
   b |-> IF Flat THEN [s \in 1..c.s |-> [q \in 1..c.nout |-> B(s, q)]] ELSE [s \in 1..c.s |-> [q \in 1..Q |-> RB(s, q)]],
   z |-> [a \in 1..c.a |-> [k \in 1..c.root |-> Z(a, k)]],
   y |-> [i \in 1..c.n |-> [j \in 1..NS |-> [q \in 1..c.nout |-> Y(i, j, q)]]]]))
===============================================================================
