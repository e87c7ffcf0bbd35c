---------------------------- MODULE Distributed -----------------------------
(* C15: distributed training.  The utterance list of an epoch is dealt to       *)
(* shards; the shards are accumulated in any order from the current model; the  *)
(* shard files are given to the update command in any order; the update saves    *)
(* a new model and the state of the optimiser.                                   *)
EXTENDS CountModel, Json

CONSTANTS MaxUtts, MaxNf, MaxP, MaxG, MaxItems, MaxShards, MaxEpochs, Rates

VARIABLES groups, utts, alis, withali, ascale, withstate, rate0, post, upd, items, shards, files, todo, hist, stage
vars == <<groups, utts, alis, withali, ascale, withstate, rate0, post, upd, items, shards, files, todo, hist, stage>>

Init == /\ groups = <<>> /\ utts = <<>> /\ alis = <<>> /\ withali \in BOOLEAN /\ ascale \in {1, 2} /\ withstate \in BOOLEAN
        /\ rate0 \in Rates /\ post = <<>> /\ upd = 0 /\ items = 0 /\ shards = <<>> /\ files = <<>> /\ todo = {} /\ hist = <<>> /\ stage = "model"

Param(g) == /\ stage = "model" /\ Len(groups) < MaxP
            /\ g <= NGroups(groups) + 1 /\ g <= MaxG
            /\ groups' = Append(groups, g) /\ UNCHANGED <<utts, alis, withali, ascale, withstate, rate0, post, upd, items, shards, files, todo, hist, stage>>
EndModel == /\ stage = "model" /\ groups # <<>> /\ stage' = "data" /\ post' = Prior(Len(groups))
            /\ UNCHANGED <<groups, utts, alis, withali, ascale, withstate, rate0, upd, items, shards, files, todo, hist>>
(* ali: 0 when the utterance has no alignment graph, otherwise the multiplicity   *)
(* with which its graph makes the model count its statistics                      *)
Utt(nf, ones, ali) == /\ stage = "data" /\ Len(utts) < MaxUtts /\ (\A p \in DOMAIN ones : ones[p] <= nf)
            /\ utts' = Append(utts, [nf |-> nf, ones |-> ones]) /\ alis' = Append(alis, ali)
            /\ UNCHANGED <<groups, withali, ascale, withstate, rate0, post, upd, items, shards, files, todo, hist, stage>>
EndData == /\ stage = "data" /\ utts # <<>> /\ stage' = "list" /\ UNCHANGED <<groups, utts, alis, withali, ascale, withstate, rate0, post, upd, items, shards, files, todo, hist>>

NewShard == /\ stage = "list" /\ Len(shards) < MaxShards /\ shards' = Append(shards, <<>>)
            /\ UNCHANGED <<groups, utts, alis, withali, ascale, withstate, rate0, post, upd, items, files, todo, hist, stage>>
(* ascale: the acoustic scale, multiplies the statistics of every utterance      *)
(* u = 0: an utterance that is not in the data set                                *)
Item(u, s) == /\ stage = "list" /\ items < MaxItems /\ shards' = [shards EXCEPT ![s] = Append(@, u)] /\ items' = items + 1
              /\ UNCHANGED <<groups, utts, alis, withali, ascale, withstate, rate0, post, upd, files, todo, hist, stage>>
Existing(s) == SelectSeq(shards[s], LAMBDA u : u # 0)
Mult(u) == ascale * (IF withali /\ alis[u] # 0 THEN alis[u] ELSE 1)
Bag(s) == LET e == Existing(s) IN [i \in 1..Len(e) |-> [u |-> e[i], k |-> Mult(e[i])]]
EndList == /\ stage = "list" /\ (\E s \in 1..Len(shards) : Existing(s) # <<>>)
           /\ stage' = "acc" /\ todo' = 1..Len(shards) /\ files' = <<>>
           /\ UNCHANGED <<groups, utts, alis, withali, ascale, withstate, rate0, post, upd, items, shards, hist>>
(* shards finish in any order; the update command reads the files in that order  *)
Accumulate(s) == /\ stage = "acc" /\ s \in todo /\ todo' = todo \ {s} /\ files' = Append(files, s)
                 /\ UNCHANGED <<groups, utts, alis, withali, ascale, withstate, rate0, post, upd, items, shards, hist, stage>>
RECURSIVE Cat(_)
Cat(fs) == IF fs = <<>> THEN <<>> ELSE Bag(Head(fs)) \o Cat(Tail(fs))
Turns == IF withstate THEN upd ELSE 0
UpdateCmd == /\ stage = "acc" /\ todo = {} 
             /\ post' = Update(groups, post, Turns, RQ(rate0, 4), utts, Cat(files))
             /\ upd' = upd + 1
             /\ hist' = Append(hist, [shards |-> shards, files |-> files, post |-> post', upd |-> Turns + 1])
             /\ shards' = <<>> /\ files' = <<>> /\ items' = 0 /\ stage' = (IF Len(hist) + 1 = MaxEpochs THEN "done" ELSE "list")
             /\ UNCHANGED <<groups, utts, alis, withali, ascale, withstate, rate0, todo>>

Next == \/ (stage = "model" /\ \E g \in 1..MaxG : Param(g)) \/ EndModel
        \/ (stage = "data" /\ \E nf \in 1..MaxNf, a \in 0..2 : \E ones \in [1..Len(groups) -> 0..nf] : Utt(nf, ones, a)) \/ EndData
        \/ NewShard \/ (stage = "list" /\ \E u \in 0..Len(utts), s \in 1..Len(shards) : Item(u, s)) \/ EndList
        \/ (stage = "acc" /\ \E s \in 1..Len(shards) : Accumulate(s)) \/ UpdateCmd

(* ------------------------------------------------------------- theorems *)
(* the partition and the orders do not matter: same as one shard with all items   *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
OneBag(sh) == LET e == SelectSeq(Flat(sh), LAMBDA u : u # 0) IN [i \in 1..Len(e) |-> [u |-> e[i], k |-> Mult(e[i])]]
SameAsOneShard == hist # <<>> =>
  LET h == hist[Len(hist)]
      before == IF Len(hist) = 1 THEN Prior(Len(groups)) ELSE hist[Len(hist) - 1].post
  IN h.post = Update(groups, before, h.upd - 1, RQ(rate0, 4), utts, OneBag(h.shards))
FilesOnce == hist # <<>> => LET h == hist[Len(hist)] IN Len(h.files) = Len(h.shards) /\ {h.files[i] : i \in 1..Len(h.files)} = 1..Len(h.shards)
Positive == stage # "model" => \A p \in DOMAIN post : RPos(post[p][1]) /\ RPos(post[p][2])

Emit == stage = "done" => PrintT("@@" \o ToJson(
  [groups |-> groups, prior |-> Prior(Len(groups)), utts |-> utts, alis |-> alis, withali |-> withali, ascale |-> ascale, withstate |-> withstate,
   rate |-> rate0, hist |-> hist]))
=============================================================================
