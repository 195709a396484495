------------------------------ MODULE Session ------------------------------
(* Histories of computations with a few metrics, tables and caches, and how  *)
(* the library stores results on the way (C14, C15).                           *)
(*                                                                             *)
(* The metrics: A and A2 are two objects with one definition, B differs from   *)
(* A in one thing, P is computed from the object A, Q has P's definition and   *)
(* TA, TB have A's and B's but they are made for one computation each.         *)
(* A value is a term which tells what it was computed from, so that            *)
(*   Transparent: whatever is answered is what the question asks for           *)
(* says that no history makes the library serve anything else.  Every history  *)
(* up to MaxLen is printed and replayed on the library with concrete metrics,  *)
(* tables and keys (harness/replay.py).  With Flaw # "" the model has one of   *)
(* the faults such a mechanism may have, and Transparent must fail.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxLen,      \* computations in a history
          Objs,        \* the metrics
          Slots,       \* the pairs of a cache and a key, e.g. "Ck"
          Trips,       \* whether computations may fail
          Flaw, Tell
VARIABLES hist, store, left, bound, ans
vars == <<hist, store, left, bound, ans>>

Temps == {"Q", "TA", "TB"}
Def(o) == IF o \in {"A", "A2", "TA"} THEN "a" ELSE IF o \in {"B", "TB"} THEN "b" ELSE "p"
Leaf == "a"
Inner(sp) == sp \o "g"                        \* P asks its child by group
Cache(c) == SubSeq(c, 1, 1)
Key(c) == SubSeq(c, 2, 2)
Caches == {Cache(c) : c \in Slots}

(* ---- what is asked for ------------------------------------------------------*)
LeafVal(d, t, sp) == <<d, t, sp>>
Demand(d, t, sp) == IF d = "p" THEN <<"p", t, sp, LeafVal(Leaf, t, Inner(sp))>> ELSE LeafVal(d, t, sp)

(* ---- the mechanism -------------------------------------------------------------*)
(* An entry: whose, under which key and split, and the value.                       *)
Ident(o, d) == CASE Flaw = "twins" /\ d = "b" -> "a"
                 [] Flaw = "address" /\ o \in Temps -> "t"
                 [] OTHER -> d
Hash(k) == IF Flaw = "hash" THEN "k" ELSE k
EntryKey(o, d, k, sp) == <<Ident(o, d), Hash(k), IF Flaw = "unsplit" THEN "" ELSE sp>>
Found(st, ek) == \E e \in st : e.k = ek
Fetch(st, ek) == (CHOOSE e \in st : e.k = ek).v
Failed == <<"failed">>
(* a leaf: its value and what the cache holds then                                     *)
AskLeaf(st, o, d, k, t, sp, trip) ==
  LET ek == EntryKey(o, d, k, sp)
      hit == IF Found(st, ek) THEN Fetch(st, ek) ELSE LeafVal(d, t, sp)
  IN IF Found(st, ek) THEN [v |-> hit, st |-> st]
     ELSE IF trip THEN [v |-> Failed,
                        st |-> IF Flaw = "half" THEN st \cup {[k |-> ek, v |-> <<"half", t, sp>>]} ELSE st]
     ELSE [v |-> hit, st |-> st \cup {[k |-> ek, v |-> hit]}]
Ask(st, o, k, t, sp, asked, trip) ==          \* asked: the split in the key of the root
  LET d == Def(o)
      ek == EntryKey(o, d, k, asked)
  IN IF Found(st, ek) THEN [v |-> Fetch(st, ek), st |-> st]
     ELSE IF d # "p"
     THEN LET r == AskLeaf({}, o, d, k, t, sp, trip)
          IN [v |-> r.v, st |-> st \cup {[k |-> ek, v |-> e.v] : e \in r.st}]
     ELSE LET r == AskLeaf(st, "A", Leaf, k, t, Inner(sp), trip)
          IN IF r.v = Failed THEN r
             ELSE LET v == <<"p", t, sp, r.v>> IN [v |-> v, st |-> r.st \cup {[k |-> ek, v |-> v]}]
Touched(o) == IF o \in Temps THEN {} ELSE IF o = "P" THEN {"P", "A"} ELSE {o}

Compute(o, t, sp, c, trip) ==
  LET k == IF c = "" THEN "reserved" ELSE Key(c)
      asked == IF Flaw = "stale" /\ c # "" /\ o \in DOMAIN left /\ left[o] # "none" THEN left[o] ELSE sp
      own == Flaw = "kept" /\ c = "" /\ o \in DOMAIN left /\ left[o] # "none"   \* what the last one left is used
      r == Ask(IF c = "" THEN {} ELSE store[Cache(c)], o, k, t, IF own THEN left[o] ELSE sp, asked, trip)
  IN /\ ans' = [v |-> r.v, d |-> Def(o), t |-> t, sp |-> sp, trip |-> trip]
     /\ store' = IF c = "" THEN store ELSE [store EXCEPT ![Cache(c)] = r.st]
     /\ left' = [x \in DOMAIN left |-> IF x \in Touched(o) THEN (IF c = "" THEN "none" ELSE sp) ELSE left[x]]
     /\ bound' = IF c = "" THEN bound ELSE [bound EXCEPT ![c] = t]
     /\ hist' = Append(hist, [o |-> o, t |-> t, sp |-> sp, c |-> c, trip |-> trip])

(* ---- histories but for the names of tables, caches and keys ---------------------*)
Before(c) == {d \in Slots : \/ Cache(d) = "C" /\ Cache(c) = "D"
                            \/ Cache(d) = Cache(c) /\ Key(d) = "k" /\ Key(c) = "l"}
UsedT == {hist[i].t : i \in DOMAIN hist}
UsedC == {hist[i].c : i \in DOMAIN hist}
Canonical(t, c) == /\ t = "1" => "0" \in UsedT
                   /\ c # "" => \A d \in Before(c) : d \in UsedC
Text(h) == h.o \o "," \o h.t \o "," \o h.sp \o "," \o h.c \o "," \o (IF h.trip THEN "!" ELSE "")
RECURSIVE Join(_)
Join(h) == IF h = <<>> THEN "" ELSE Text(Head(h)) \o (IF Len(h) = 1 THEN "" ELSE ";" \o Join(Tail(h)))

Init == /\ hist = <<>> /\ bound = [c \in Slots |-> "none"]
        /\ store = [c \in Caches |-> {}]
        /\ left = [o \in Objs \ Temps |-> "none"]
        /\ ans = [v |-> <<>>, d |-> "none", t |-> "0", sp |-> "", trip |-> FALSE]
Next == /\ Len(hist) < MaxLen
        /\ \E o \in Objs, t \in {"0", "1"}, sp \in {"", "s"}, c \in Slots \cup {""}, trip \in (IF Trips THEN BOOLEAN ELSE {FALSE}) :
             /\ Canonical(t, c)
             /\ c # "" => bound[c] \in {"none", t}       \* a key stands for one table
             /\ trip => Def(o) # "b"
             /\ Compute(o, t, sp, c, trip)
             /\ (Tell /\ Len(hist) + 1 = MaxLen) => PrintT("H|" \o Join(hist'))
Spec == Init /\ [][Next]_vars

Transparent == ans.d # "none" => IF ans.v = Failed THEN ans.trip ELSE ans.v = Demand(ans.d, ans.t, ans.sp)
(* Whatever a cache holds is what would be computed from the table its key stands for. *)
Faithful == \A c \in Slots : \A e \in store[Cache(c)] : (e.k[2] = Key(c) /\ bound[c] # "none") =>
              e.v \in {LeafVal("a", bound[c], e.k[3]), LeafVal("b", bound[c], e.k[3]), Demand("p", bound[c], e.k[3])}
(* A failed computation stores nothing of what failed.                                 *)
NoHalves == \A c \in Caches : \A e \in store[c] : e.v[1] # "half"
=============================================================================
