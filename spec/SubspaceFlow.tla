----------------------------- MODULE SubspaceFlow -----------------------------
(* C21, the shmm commands: which version of the map and of the embeddings the  *)
(* units of the loop on disk are generated from.  A version counts training    *)
(* epochs: <<g, p>> = <<epochs of the map, epochs of the embeddings>>.         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps, MaxEpochs, MaxTotal, MaxGroups
VARIABLES ver, src, stats, groups, target, latent, hist, done
vars == <<ver, src, stats, groups, target, latent, hist, done>>

Init == /\ groups \in 1..MaxGroups /\ target \in 1..groups /\ latent \in 1..2
        /\ ver = <<0, 0>> /\ src = <<0, 0>> /\ stats = 0 /\ hist = <<>> /\ done = FALSE
Log(op, e) == hist' = Append(hist, [op |-> op, e |-> e, ver |-> ver', src |-> src', stats |-> stats'])
Run == ~done /\ Len(hist) < MaxOps
(* shmm init: the units follow the files given                                *)
Initialise == Run /\ src' = ver /\ UNCHANGED <<ver, stats, groups, target, latent, done>> /\ Log("init", 0)
(* hmm accumulate + update: new statistics, the units stay where they are      *)
Update == Run /\ stats' = stats + 1 /\ UNCHANGED <<ver, src, groups, target, latent, done>> /\ Log("update", 0)
(* one epoch: the units are regenerated, then map and embeddings move          *)
Epoch(v, only) == IF only THEN <<v[1], v[2] + 1>> ELSE <<v[1] + 1, v[2] + 1>>
RECURSIVE Epochs(_, _, _)
Epochs(v, n, only) == IF n = 0 THEN v ELSE Epochs(Epoch(v, only), n - 1, only)
Train(n, only) == Run /\ stats > 0 /\ ver[2] + n <= MaxTotal
  /\ ver' = Epochs(ver, n, only) /\ src' = Epochs(ver, n - 1, only)
  /\ UNCHANGED <<stats, groups, target, latent, done>> /\ Log(IF only THEN "posts" ELSE "train", n)
Finish == ~done /\ Len(hist) = MaxOps /\ done' = TRUE /\ UNCHANGED <<ver, src, stats, groups, target, latent, hist>>
Next == Initialise \/ Update \/ (\E n \in 1..MaxEpochs : Train(n, TRUE) \/ Train(n, FALSE)) \/ Finish

(* the loop on disk is never ahead of the files, never behind by more than an epoch after training *)
Fresh == /\ src[1] <= ver[1] /\ src[2] <= ver[2]
         /\ (hist # <<>> /\ hist[Len(hist)].op \in {"train", "posts"}) => src[2] = ver[2] - 1
         /\ (hist # <<>> /\ hist[Len(hist)].op = "init") => src = ver
MapFrozen == \A i \in 2..Len(hist) : hist[i].op = "posts" => hist[i].ver[1] = hist[i - 1].ver[1]
Emit == done => PrintT("@@" \o ToJson([groups |-> groups, target |-> target, latent |-> latent, hist |-> hist]))
===============================================================================
