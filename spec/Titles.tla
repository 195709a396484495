------------------------------- MODULE Titles -------------------------------
(* How a collection of columns gives titles (C20).  Two collections A and B;   *)
(* columns are added one by one, B is at times poured into A.  A column which   *)
(* was made is a handle: who made it asks it for its title later on, also when  *)
(* its expression had been there already, under another title.                   *)
(*                                                                              *)
(* Every history up to MaxLen is printed and replayed on the library; what the  *)
(* library does then is judged by Query!TitlesDiff.  With Flaw # "" the model   *)
(* has a fault, and an invariant must fail.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxLen, Exprs, Raws, Flaw, Tell
VARIABLES hist, col, made
vars == <<hist, col, made>>

Suffixed(r, n) == IF n = 0 THEN r ELSE r \o "_" \o ToString(n)
Title(c) == Suffixed(c.raw, c.n)
TitlesOf(l) == {Title(l[i]) : i \in DOMAIN l}
ExprsOf(l) == {l[i].e : i \in DOMAIN l}
RECURSIVE FirstFree(_, _, _)
FirstFree(l, r, n) == IF Suffixed(r, n) \notin TitlesOf(l) THEN n ELSE FirstFree(l, r, n + 1)
Given(l, r, n) == CASE Flaw = "clash" -> n
                    [] Flaw = "once" -> IF Suffixed(r, n) \in TitlesOf(l) THEN n + 1 ELSE n
                    [] OTHER -> FirstFree(l, r, n)
(* what becomes of the collection, and of the handle *)
Put(l, c) ==
  IF c.e \in ExprsOf(l) /\ Flaw # "again"
  THEN LET old == l[CHOOSE i \in DOMAIN l : l[i].e = c.e]
       IN [l |-> l, c |-> IF Flaw = "deaf" THEN c ELSE old]
  ELSE LET d == [c EXCEPT !.n = Given(l, c.raw, c.n)]
           k == {i \in DOMAIN l : Title(l[i]) = Title(c)}
       IN IF Flaw = "takes" /\ k # {}            \* the newcomer gets the title, who had it another
          THEN LET i == CHOOSE i \in k : TRUE
               IN [l |-> Append([l EXCEPT ![i].n = FirstFree(l, l[i].raw, l[i].n + 1)], c), c |-> c]
          ELSE [l |-> Append(l, d), c |-> d]
RECURSIVE Pour(_, _)
Pour(l, m) == IF m = <<>> THEN [l |-> l, as |-> <<>>]
              ELSE LET p == Put(l, Head(m))
                       q == Pour(p.l, Tail(m))
                   IN [l |-> q.l, as |-> <<p.c>> \o q.as]

Add(h, e, r) == LET p == Put(col[h], [e |-> e, raw |-> r, n |-> 0])
                IN /\ col' = [col EXCEPT ![h] = p.l]
                   /\ made' = Append(made, [c |-> p.c, home |-> h])
                   /\ hist' = Append(hist, h \o "," \o e \o "," \o r)
Join == /\ col["B"] # <<>>
        /\ LET p == Pour(col["A"], col["B"])
               in(i) == made[i].home = "B" /\ made[i].c.e \in ExprsOf(col["B"])
               now(i) == p.as[CHOOSE j \in DOMAIN col["B"] : col["B"][j].e = made[i].c.e]
           IN /\ col' = [A |-> p.l, B |-> <<>>]
              /\ made' = [i \in DOMAIN made |-> IF in(i) THEN [c |-> IF Flaw = "left" THEN made[i].c ELSE now(i), home |-> "A"] ELSE made[i]]
              /\ hist' = Append(hist, "J")

Init == hist = <<>> /\ col = [A |-> <<>>, B |-> <<>>] /\ made = <<>>
RECURSIVE Text(_)
Text(h) == IF h = <<>> THEN "" ELSE Head(h) \o (IF Len(h) = 1 THEN "" ELSE ";" \o Text(Tail(h)))
Next == /\ Len(hist) < MaxLen
        /\ (Join \/ \E h \in {"A", "B"}, e \in Exprs, r \in Raws : Add(h, e, r))
        /\ (Tell /\ Len(hist) + 1 = MaxLen) => PrintT("H|" \o Text(hist'))
Spec == Init /\ [][Next]_vars

Once == \A h \in {"A", "B"} : Cardinality(ExprsOf(col[h])) = Len(col[h])
Unique == \A h \in {"A", "B"} : Cardinality(TitlesOf(col[h])) = Len(col[h])
(* a handle's title is the one its expression has *)
Points == \A i \in DOMAIN made : \E j \in DOMAIN col[made[i].home] :
            LET c == col[made[i].home][j] IN c.e = made[i].c.e /\ Title(c) = Title(made[i].c)
(* nothing that is there changes *)
Kept == [][\A i \in DOMAIN col["A"] : i \in DOMAIN col'["A"] /\ col'["A"][i] = col["A"][i]]_vars
=============================================================================
