------------------------------ MODULE Training ------------------------------
(* C11 / C13: accumulation of objectives and the update schedule.             *)
(* A model has NP parameters (two-category Dirichlet weights), arranged in     *)
(* mean-field groups.  Objectives ("registers") are evaluated on batches,      *)
(* added, saved and reloaded, back-propagated; the optimiser updates one       *)
(* group per step; optimiser state and model can be saved and reloaded.        *)
(* Every quantity is an exact rational; the value of an objective is kept as   *)
(* the list of evaluations it adds up.                                         *)
EXTENDS Rat, TLC, Json

CONSTANTS MaxP, MaxG, MaxOps, MaxFrames, Sizes, WithSave, WithGrad, MaxSteps, PrintOut

VARIABLES np, groups, prior, post, stats, regs, evals, upd, lr, saved, w, vel, grad, lr0, used, hist, phase
vars == <<np, groups, prior, post, stats, regs, evals, upd, lr, saved, w, vel, grad, lr0, used, hist, phase>>

P == 1..np
Zero2 == <<RZero, RZero>>
Pairs == {<<ROne, ROne>>, <<R(2), ROne>>, <<RQ(1, 2), R(3)>>}
Rates == {ROne, RQ(1, 2)}

Init == np = 0 /\ groups = <<>> /\ prior = <<>> /\ post = <<>> /\ stats = <<>> /\ regs = <<>> /\ evals = <<>>
        /\ upd = 0 /\ lr = ROne /\ saved = <<>> /\ w = RZero /\ vel = RZero /\ grad = <<>> /\ lr0 = ROne /\ used = {} /\ hist = <<>> /\ phase = "setup"

(* groups[p] = group of parameter p, numbered from 1 without holes             *)
(* many parameters: one group each, in either order, or the first two together  *)
Assigns == IF np <= 4 THEN [P -> 1..MaxG] ELSE {[p \in P |-> p], [p \in P |-> np + 1 - p], [p \in P |-> IF p = 1 THEN 1 ELSE p - 1]}
Subs(view) == IF np <= 4 THEN SUBSET view ELSE {view}
Ones(nf) == IF np <= 4 THEN [P -> 0..nf] ELSE {[p \in P |-> (p + k) % (nf + 1)] : k \in 0..nf}
Pick == phase = "setup" /\ np = 0 /\ np' \in 1..MaxP
        /\ UNCHANGED <<groups, prior, post, stats, regs, evals, upd, lr, saved, w, vel, grad, lr0, used, hist, phase>>
Setup == phase = "setup" /\ np > 0
  /\ \E g \in Assigns, l \in Rates :
        /\ {g[p] : p \in P} = 1..Cardinality({g[p] : p \in P})
        /\ groups' = g /\ lr' = l /\ lr0' = l
  /\ prior' = [p \in P |-> CASE p % 3 = 0 -> <<ROne, ROne>> [] p % 3 = 1 -> <<R(2), ROne>> [] OTHER -> <<RQ(1, 2), R(3)>>]
  /\ post' = prior' /\ stats' = [p \in P |-> Zero2] /\ phase' = "run"
  /\ UNCHANGED <<np, regs, evals, upd, saved, w, vel, grad, used, hist>>

NG == Cardinality({groups[p] : p \in P})
Room == phase = "run" /\ Len(hist) < MaxOps
Log(e) == hist' = Append(hist, e)
Snap == [post |-> post', stats |-> stats', upd |-> upd', lr |-> lr', w |-> w']

(* a model that has all the parameters, or a part of them                       *)
Views == {P, {1}, P \ {1}} \ {{}}
Eval == Room /\ Len(evals) < 4 /\ \E nf \in 1..MaxFrames, ds \in Sizes \cup {0}, view \in Views : \E sub \in Subs(view) :
  \E ones \in Ones(nf) :
   /\ sub # {} /\ (\A p \in P \ view : ones[p] = 0) /\ (ds = 0 \/ ds >= 1)
   /\ LET size == IF ds = 0 THEN nf ELSE ds
          e == [nf |-> nf, ones |-> ones, ds |-> size, post |-> post, w |-> w, view |-> view]
      IN /\ evals' = Append(evals, e)
         /\ regs' = Append(regs, [ev |-> <<Len(evals) + 1>>, ds |-> size, nf |-> nf, live |-> TRUE, mine |-> view,
                                  has |-> sub, acc |-> [p \in P |-> IF p \in sub THEN <<ones[p], nf - ones[p]>> ELSE <<0, 0>>]])
         /\ Log([op |-> "eval", nf |-> nf, ones |-> ones, ds |-> ds, size |-> size, sub |-> sub, view |-> view, post |-> post, w |-> w])
   /\ UNCHANGED <<np, groups, prior, post, stats, upd, lr, saved, w, vel, grad, lr0, used, phase>>
Empty == Room /\ Len(regs) < 6 /\ \E ds \in Sizes :
   /\ regs' = Append(regs, [ev |-> <<>>, ds |-> ds, nf |-> 0, live |-> TRUE, mine |-> {}, has |-> {}, acc |-> [p \in P |-> <<0, 0>>]])
   /\ Log([op |-> "empty", ds |-> ds])
   /\ UNCHANGED <<np, groups, prior, post, stats, evals, upd, lr, saved, w, vel, grad, lr0, used, phase>>
Add == Room /\ Len(regs) < 8 /\ \E i, j \in 1..Len(regs) :
   LET a == regs[i] b == regs[j] IN
   /\ a.live = b.live
   /\ (WithGrad => \A x \in 1..Len(a.ev), y \in 1..Len(b.ev) : a.ev[x] # b.ev[y])
   /\ IF a.ds # b.ds
      THEN /\ Log([op |-> "add", i |-> i, j |-> j, ok |-> FALSE]) /\ UNCHANGED regs
      ELSE /\ regs' = Append(regs, [ev |-> a.ev \o b.ev, ds |-> a.ds, nf |-> a.nf + b.nf, live |-> a.live,
                          mine |-> a.mine \cup b.mine, has |-> a.has \cup b.has,
                          acc |-> [p \in P |-> <<a.acc[p][1] + b.acc[p][1], a.acc[p][2] + b.acc[p][2]>>]])
           /\ Log([op |-> "add", i |-> i, j |-> j, ok |-> TRUE])
   /\ UNCHANGED <<np, groups, prior, post, stats, evals, upd, lr, saved, w, vel, grad, lr0, used, phase>>
(* pickling: the reloaded objective is detached until it is synchronised        *)
SaveReg == WithSave /\ Room /\ \E i \in 1..Len(regs), s \in BOOLEAN :
   /\ regs' = [regs EXCEPT ![i].live = s, ![i].mine = IF s THEN P ELSE @]
   /\ Log([op |-> "pickle", i |-> i, sync |-> s])
   /\ UNCHANGED <<np, groups, prior, post, stats, evals, upd, lr, saved, w, vel, grad, lr0, used, phase>>
Scale(r) == RQ(r.ds, r.nf)
Backward == Room /\ \E i \in 1..Len(regs) : LET r == regs[i] IN
   /\ r.nf > 0
   /\ (WithGrad => \A x \in 1..Len(r.ev) : r.ev[x] \notin used)
   /\ stats' = [p \in P |-> IF r.live /\ p \in r.mine /\ p \in r.has
                            THEN <<RMul(Scale(r), R(r.acc[p][1])), RMul(Scale(r), R(r.acc[p][2]))>> ELSE stats[p]]
   /\ grad' = <<RAdd(IF grad = <<>> THEN RZero ELSE grad[1], R(ISumSeq([x \in 1..Len(r.ev) |-> evals[r.ev[x]].ds])))>>
   /\ used' = used \cup {r.ev[x] : x \in 1..Len(r.ev)}
   /\ Log([op |-> "backward", i |-> i, stats |-> stats'])
   /\ UNCHANGED <<np, groups, prior, post, regs, evals, upd, lr, saved, w, vel, lr0, phase>>
InitStep == Room /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].op # "init") /\ stats' = [p \in P |-> Zero2] /\ grad' = <<>>
   /\ Log([op |-> "init", stats |-> stats'])
   /\ UNCHANGED <<np, groups, prior, post, regs, evals, upd, lr, saved, w, vel, lr0, used, phase>>
Turn == (upd % NG) + 1
Lerp(r, a, b) == RAdd(RMul(RSub(ROne, r), a), RMul(r, b))
Step == Room /\ Cardinality({i \in 1..Len(hist) : hist[i].op = "step"}) < MaxSteps
   /\ post' = [p \in P |-> IF groups[p] = Turn
                 THEN <<Lerp(lr, post[p][1], RAdd(prior[p][1], stats[p][1])), Lerp(lr, post[p][2], RAdd(prior[p][2], stats[p][2]))>>
                 ELSE post[p]]
   (* the free parameter is trained by gradient ascent with momentum 1/2; without a gradient it rests *)
   /\ vel' = (IF grad = <<>> THEN vel ELSE RAdd(RMul(RQ(1, 2), vel), grad[1]))
   /\ w' = (IF grad = <<>> THEN w ELSE RAdd(w, vel')) /\ upd' = upd + 1
   /\ Log([op |-> "step", turn |-> Turn, post |-> post', w |-> w'])
   /\ UNCHANGED <<np, groups, prior, stats, regs, evals, lr, saved, grad, lr0, used, phase>>
SetRate == Room /\ \E l \in Rates \ {lr} : lr' = l /\ Log([op |-> "rate", lr |-> l])
   /\ UNCHANGED <<np, groups, prior, post, stats, regs, evals, upd, saved, w, vel, grad, lr0, used, phase>>
SaveState == Room /\ saved = <<>> /\ saved' = [lr |-> lr, upd |-> upd, vel |-> vel] /\ Log([op |-> "savestate"])
   /\ UNCHANGED <<np, groups, prior, post, stats, regs, evals, upd, lr, w, vel, grad, lr0, used, phase>>
(* a new optimiser (default rate 1/4) for the (possibly reloaded) model         *)
Restore(reload) == Room /\ saved # <<>> /\ lr' = saved.lr /\ upd' = saved.upd /\ vel' = saved.vel
   /\ regs' = [i \in 1..Len(regs) |-> [regs[i] EXCEPT !.live = IF reload THEN (regs[i].ev = <<>> /\ regs[i].live) ELSE @]]
   /\ Log([op |-> "restore", reload |-> reload])
   /\ UNCHANGED <<np, groups, prior, post, stats, evals, saved, w, grad, lr0, used, phase>>
Finish == phase = "run" /\ Len(hist) = MaxOps /\ phase' = "done"
   /\ UNCHANGED <<np, groups, prior, post, stats, regs, evals, upd, lr, saved, w, vel, grad, lr0, used, hist>>
Next == Pick \/ Setup \/ Eval \/ Empty \/ Add \/ SaveReg \/ Backward \/ InitStep \/ Step \/ SetRate \/ SaveState
        \/ Restore(FALSE) \/ (WithSave /\ Restore(TRUE)) \/ Finish

(* ------------------------------------------------------------- theorems *)
(* a register is determined by the multiset of its evaluations                  *)
Monoid == phase # "setup" => \A i \in 1..Len(regs) : LET r == regs[i] IN
  /\ r.nf = ISumSeq([x \in 1..Len(r.ev) |-> evals[r.ev[x]].nf])
  /\ \A x \in 1..Len(r.ev) : evals[r.ev[x]].ds = r.ds
(* only the group whose turn it was changed                                     *)
OneGroup == [][phase = "run" /\ phase' = "run" /\ post' # post =>
   /\ upd' = upd + 1
   /\ \A p \in P : groups[p] # Turn => post'[p] = post[p]]_vars
(* a round of steps without statistics from the prior is a stutter: the replay   *)
(* runs up to hundreds of them before the history                              *)
RECURSIVE Idle(_, _, _)
Idle(q, u, n) == IF n = 0 THEN <<q, u % NG>>
  ELSE Idle([p \in P |-> IF groups[p] = (u % NG) + 1 THEN <<Lerp(lr, q[p][1], prior[p][1]), Lerp(lr, q[p][2], prior[p][2])>> ELSE q[p]], u + 1, n - 1)
IdleRound == (phase = "run" /\ hist = <<>>) => Idle(post, upd, 2 * NG) = <<prior, upd % NG>>
Positive == phase # "setup" => \A p \in P : post[p][1][1] > 0 /\ post[p][2][1] > 0

Final == [i \in 1..Len(regs) |-> [ev |-> regs[i].ev, nf |-> regs[i].nf, ds |-> regs[i].ds,
           has |-> regs[i].has, acc |-> regs[i].acc]]
Emit == (phase = "done" /\ PrintOut) =>
  PrintT("@@" \o ToJson([np |-> np, groups |-> groups, prior |-> prior, hist |-> hist, evals |-> evals, regs |-> Final,
                         lr0 |-> IF lr0 = ROne THEN 1 ELSE 2, post |-> post, stats |-> stats]))
============================================================================
