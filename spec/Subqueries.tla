----------------------------- MODULE Subqueries -----------------------------
(* Queries put together in WITH clauses (C20).  A query asks one column from    *)
(* the table or from another query, with one of several shapes (conditions and   *)
(* groups).  It is added under a name, or merged into one which asks the same    *)
(* rows in the same shape.  Whoever added it holds the name it is under now.     *)
(* In the end a second WITH clause may be taken into the first.                   *)
(*   Means: the name leads to what was asked for, through all the queries below. *)
(* Every history up to MaxLen is printed and replayed on the library, the        *)
(* answers are judged by Query!AnswerOf.  Flaw: as in Titles.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen, Stores, Hows, Names, Shapes, Cols, Flaw, Tell
VARIABLES hist, with, made, taken
vars == <<hist, with, made, taken>>

(* with[d]: a sequence of [name, src, shape, cols], src a name or "T"                                *)
(* made: a sequence of [ds, name, src (index in made or 0), shape, col]: what was asked, and its name *)
At(w, n) == w[CHOOSE i \in DOMAIN w : w[i].name = n]
NamesIn(w) == {w[i].name : i \in DOMAIN w}
Fresh0 == [A |-> "A_1", A_1 |-> "A_2", A_2 |-> "A_3", A_3 |-> "A_4", A_4 |-> "A_5", A_5 |-> "A_6", A_6 |-> "A_7", A_7 |-> "A_8",
           B |-> "B_1", B_1 |-> "B_2", B_2 |-> "B_3", B_3 |-> "B_4", B_4 |-> "B_5", B_5 |-> "B_6"]
RECURSIVE Free(_, _)
Free(w, n) == IF n \notin NamesIn(w) THEN n ELSE Free(w, Fresh0[n])
Same(a, b) == a.src = b.src /\ a.shape = b.shape /\ a.cols = b.cols
Fits(a, b) == a.src = b.src /\ (a.shape = b.shape \/ Flaw = "unlike")
AddTo(w, q) ==
  LET k == {i \in DOMAIN w : Same(w[i], q)}
  IN IF k # {} THEN [w |-> w, name |-> IF Flaw = "own" THEN q.name ELSE w[CHOOSE i \in k : TRUE].name]
     ELSE IF q.name \in NamesIn(w) /\ Flaw = "over"
          THEN [w |-> [i \in DOMAIN w |-> IF w[i].name = q.name THEN q ELSE w[i]], name |-> q.name]
     ELSE LET n == Free(w, q.name) IN [w |-> Append(w, [q EXCEPT !.name = n]), name |-> n]
MergeTo(w, q) ==
  LET k == {i \in DOMAIN w : Fits(w[i], q)}
      i == CHOOSE i \in k : TRUE
  IN IF k = {} THEN LET n == Free(w, q.name) IN [w |-> Append(w, [q EXCEPT !.name = n]), name |-> n]
     ELSE [w |-> [w EXCEPT ![i].cols = @ \cup (IF Flaw = "lost" THEN {} ELSE q.cols)], name |-> w[i].name]

Ask(d, how, name, src, shape, c) ==
  LET q == [name |-> name, src |-> IF src = 0 THEN "T" ELSE made[src].name, shape |-> shape, cols |-> {c}]
      r == IF how = "add" THEN AddTo(with[d], q) ELSE MergeTo(with[d], q)
  IN /\ with' = [with EXCEPT ![d] = r.w]
     /\ made' = Append(made, [ds |-> d, name |-> r.name, src |-> src, shape |-> shape, col |-> c])
     /\ hist' = Append(hist, ToString(d) \o "," \o how \o "," \o name \o "," \o ToString(src) \o "," \o ToString(shape) \o "," \o ToString(c))
     /\ UNCHANGED taken

(* the second WITH clause taken into the first: names which are there already change, all at once *)
RECURSIVE Take(_, _, _)
Take(w, other, ren) ==
  IF other = <<>> THEN [w |-> w, ren |-> ren]
  ELSE LET o == Head(other)
           to(n) == IF n \in DOMAIN ren /\ Flaw # "stuck" THEN ren[n] ELSE n
           chained(n) == IF to(n) \in DOMAIN ren THEN ren[to(n)] ELSE to(n)
           q == [o EXCEPT !.src = IF Flaw = "chain" THEN chained(o.src) ELSE to(o.src)]
           r == AddTo(w, q)
       IN Take(r.w, Tail(other), [n \in DOMAIN ren \cup {o.name} |-> IF n = o.name THEN r.name ELSE ren[n]])
TakeIn == /\ ~taken /\ 2 \in Stores /\ with[2] # <<>>
          /\ LET r == Take(with[1], with[2], [n \in {} |-> n])
             IN /\ with' = [with EXCEPT ![1] = r.w]
                /\ made' = [i \in DOMAIN made |-> IF made[i].ds = 2 THEN [made[i] EXCEPT !.ds = 1, !.name = r.ren[made[i].name]] ELSE made[i]]
          /\ taken' = TRUE /\ UNCHANGED hist

RECURSIVE Text(_)
Text(h) == IF h = <<>> THEN "" ELSE Head(h) \o (IF Len(h) = 1 THEN "" ELSE ";" \o Text(Tail(h)))
Init == hist = <<>> /\ with = [d \in {1, 2} |-> <<>>] /\ made = <<>> /\ taken = FALSE
Next == \/ /\ Len(hist) < MaxLen /\ ~taken
           /\ \E d \in Stores, how \in Hows, name \in Names, shape \in Shapes, c \in Cols :
                \E src \in {0} \cup {i \in DOMAIN made : made[i].ds = d} : Ask(d, how, name, src, shape, c)
           /\ (Tell /\ Len(hist) + 1 = MaxLen) => PrintT("H|" \o Text(hist'))
        \/ Len(hist) = MaxLen /\ TakeIn
Spec == Init /\ [][Next]_vars

RECURSIVE Leads(_, _, _)
Leads(w, n, i) == /\ n \in NamesIn(w)
                  /\ LET q == At(w, n)
                         m == made[i]
                     IN /\ q.shape = m.shape /\ m.col \in q.cols
                        /\ IF m.src = 0 THEN q.src = "T" ELSE q.src # "T" /\ Leads(w, q.src, m.src)
Means == \A i \in DOMAIN made : Leads(with[made[i].ds], made[i].name, i)
OneEach == \A d \in {1, 2} : Cardinality(NamesIn(with[d])) = Len(with[d])
(* a query asks only from those before it *)
Scoped == \A d \in {1, 2} : \A i \in DOMAIN with[d] : with[d][i].src = "T" \/ \E j \in 1..(i - 1) : with[d][j].name = with[d][i].src
=============================================================================
