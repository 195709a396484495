--------------------------------- MODULE Query ---------------------------------
(***************************************************************************)
(* What assembling queries means (C20), whatever the text looks like.       *)
(***************************************************************************)
EXTENDS Resample
Digits == 7
Join(s) == FoldSeq(LAMBDA x, acc : IF acc = "" THEN x ELSE acc \o "," \o x, "", s)

(* ---- collections of columns ----------------------------------------------*)
(* A collection is a sequence of <<expression, title>>. Recorded after every  *)
(* step: the collections A and B, and every column ever made (e, a: its       *)
(* expression and title now; own: its title before it was added; home: where  *)
(* it is, if known).                                                           *)
Distinct(s) == Cardinality(Range1(s)) = Len(s)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Firsts(l) == [i \in DOMAIN l |-> l[i][1]]
Seconds(l) == [i \in DOMAIN l |-> l[i][2]]
CollectionDiff(l) ==
  IF ~Distinct(Firsts(l)) THEN "an expression is there twice"
  ELSE IF ~Distinct(Seconds(l)) THEN "two expressions have one title"
  ELSE ""
NoStep == [A |-> <<>>, B |-> <<>>, made |-> <<>>]
StepTitles(ev, i) ==
  LET p == IF i = 1 THEN NoStep ELSE ev.steps[i - 1]
      s == ev.steps[i]
      op == ev.ops[i]
      l(h) == IF h = "A" THEN s.A ELSE s.B
      was(h) == IF h = "A" THEN p.A ELSE p.B
      lost == {k \in DOMAIN s.made : s.made[k].home # "" /\ s.made[k].e \notin Range1(Firsts(l(s.made[k].home)))}
      astray == {k \in DOMAIN s.made : s.made[k].home # "" /\ <<s.made[k].e, s.made[k].a>> \notin Range1(l(s.made[k].home))}
      new == s.made[Len(s.made)]
      isnew == op[1] \in {"A", "B"} /\ new.e \notin Range1(Firsts(was(op[1])))
  IN IF CollectionDiff(s.A) # "" THEN CollectionDiff(s.A)
     ELSE IF CollectionDiff(s.B) # "" THEN CollectionDiff(s.B)
     ELSE IF lost # {} THEN "a column which was added is not there"
     ELSE IF astray # {} THEN "the title of a column does not refer to its expression"
     ELSE IF ~IsPrefixOf(p.A, s.A) \/ (op[1] # "J" /\ ~IsPrefixOf(p.B, s.B)) THEN "columns which were there have changed"
     ELSE IF op[1] \in {"R", "P"} /\ (s.A # p.A \/ s.B # p.B) THEN "adding a column again, or printing, has an effect"
     ELSE IF op[1] = "J" /\ Range1(Firsts(s.A)) # Range1(Firsts(p.A)) \cup Range1(Firsts(p.B)) THEN "columns were lost or made up"
     ELSE IF isnew /\ Len(l(op[1])) # Len(was(op[1])) + 1 THEN "one column was added but not one more is there"
     ELSE IF isnew /\ new.own \notin Range1(Seconds(was(op[1]))) /\ new.a # new.own THEN "the title was free but another one was given"
     ELSE IF s.text # [k \in DOMAIN s.A |-> IF s.A[k][1] = s.A[k][2] THEN s.A[k][1] ELSE s.A[k][1] \o " AS " \o s.A[k][2]]
          THEN "the text does not tell the columns"
     ELSE IF s.group # Seconds(s.A) THEN "the grouping does not tell the titles"
     ELSE ""
TitlesDiff(ev) ==
  LET bad == {i \in DOMAIN ev.steps : StepTitles(ev, i) # ""}
  IN IF bad = {} THEN "" ELSE LET i == Min(bad) IN "step " \o ToString(i) \o ": " \o StepTitles(ev, i)

(* ---- arithmetic with columns -----------------------------------------------*)
Known(a) == IF a \in {"inf", "-inf"} THEN "nan" ELSE a           \* NULL
RECURSIVE AVal(_, _)
AVal(t, r) ==
  LET k(i) == AVal(t.kids[i], r)
      c == CASE t.o = "var" -> r[t.v]
             [] t.o = "const" -> t.v
             [] t.o = "neg" -> NNeg(k(1))
             [] t.o = "+" -> NAdd(k(1), k(2))
             [] t.o = "-" -> NSub(k(1), k(2))
             [] t.o = "*" -> NMul(k(1), k(2))
             [] t.o = "/" -> NDiv(k(1), k(2))
             [] OTHER -> NPow(k(1), k(2))
  IN Known(c)

(* ---- queries over tables and other queries --------------------------------------*)
LeafOf == [SUM |-> "Sum", COUNT |-> "Count", MAX |-> "Max", MIN |-> "Min"]
AggOf(c) == [op |-> LeafOf[c[1]], var |-> c[2], distinct |-> FALSE, where |-> <<>>]
TableOf(tb, fr, group) ==
  LET ks == SetToSeq(DOMAIN fr.f)
      col == [j \in 1..fr.n |-> "c" \o ToString(j - 1)]
      row(k) == [c \in {group[i] : i \in DOMAIN group} \cup {col[j] : j \in 1..fr.n} |->
                   IF \E i \in DOMAIN group : group[i] = c THEN k[CHOOSE i \in DOMAIN group : group[i] = c]
                   ELSE fr.f[k][CHOOSE j \in 1..fr.n : col[j] = c]]
  IN [tb EXCEPT !.rows = [i \in DOMAIN ks |-> row(ks[i])]]
RECURSIVE SourceOf(_, _), AnswerOf(_, _)
SourceOf(ev, i) ==
  LET st == ev.steps[i]
  IN Filter(IF st.src < 0 THEN ev.tb ELSE TableOf(ev.tb, AnswerOf(ev, st.src + 1), ev.steps[st.src + 1].group), st.where)
AnswerOf(ev, i) ==
  LET st == ev.steps[i]
  IN Eval([op |-> "List", where |-> <<>>, kids |-> [k \in DOMAIN st.cols |-> AggOf(st.cols[k])]], SourceOf(ev, i), st.group)
(* the answer of a query of which only some rows are asked for *)
LastOf(ev, i) ==
  LET fr == AnswerOf(ev, i)
      st == ev.steps[i]
      rows == TableOf(ev.tb, fr, st.group)
      ks == SetToSeq(DOMAIN fr.f)
      keep == {k \in DOMAIN fr.f : Filter([rows EXCEPT !.rows = <<TableOf(ev.tb, [fr EXCEPT !.f = (k :> fr.f[k])], st.group).rows[1]>>], st.last).rows # <<>>}
  IN [fr EXCEPT !.f = [k \in keep |-> fr.f[k]]]
(* an aggregate over no rows at all, and all that is asked from it, is not looked at *)
RECURSIVE Hollow(_, _)
Hollow(ev, i) == \/ SourceOf(ev, i).rows = <<>>
                 \/ ev.steps[i].src >= 0 /\ Hollow(ev, ev.steps[i].src + 1)

(* ---- the text of the query of a metric ---------------------------------------------*)
(* parts: the WITH clause in order, with the names each asks from; main: the names the  *)
(* query itself asks from; outer: the tables there are.                                  *)
TextDiff(ev) ==
  LET names == [i \in DOMAIN ev.parts |-> ev.parts[i].name]
      outer == {"T", "R"}
      scope(i) == outer \cup {names[j] : j \in 1..(i - 1)}
      loose == {i \in DOMAIN ev.parts : ~(Range1(ev.parts[i].asks) \subseteq scope(i))}
  IN IF ~ev.same THEN "the text is not always the same"
     ELSE IF ~ev.untouched THEN "the query which was given has changed"
     ELSE IF ~Distinct(names) THEN "two subqueries have one name"
     ELSE IF loose # {} THEN "subquery " \o names[Min(loose)] \o " asks from one which is not before it"
     ELSE IF ~(Range1(ev.main) \subseteq scope(Len(names) + 1)) THEN "the query asks from one which is not there"
     ELSE ""
=============================================================================
