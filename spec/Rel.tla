-------------------------------- MODULE Rel --------------------------------
(***************************************************************************)
(* Tables, filters, grouping and result frames.                            *)
(*                                                                         *)
(* A table is [rows |-> sequence of records (column -> cell),              *)
(*             ord |-> record (column -> its labels in ascending order)].   *)
(* Cells of numeric columns are numbers of module Num, cells of other       *)
(* columns are labels.  The order of rows only matters to Nth.             *)
(*                                                                         *)
(* A frame is what a computation returns:                                  *)
(*   idx  names of the index columns (<<>> for one unlabelled row)         *)
(*   n    number of value columns                                          *)
(*   f    function from index keys (sequences of labels) to value rows     *)
(***************************************************************************)
EXTENDS Num, TLC, FiniteSets, SequencesExt, FiniteSetsExt, Functions

Range1(s) == {s[i] : i \in DOMAIN s}
Map(s, Op(_)) == [i \in DOMAIN s |-> Op(s[i])]

KeyOf(r, cs) == [i \in DOMAIN cs |-> r[cs[i]]]

(* ---- filters ----------------------------------------------------------*)
RECURSIVE Sat(_, _)
Sat(c, r) ==
  CASE c.c = "and" -> Sat(c.a, r) /\ Sat(c.b, r)
    [] c.c = "or"  -> Sat(c.a, r) \/ Sat(c.b, r)
    [] c.c = "not" -> ~Sat(c.a, r)
    [] c.c = "num" ->                      \* numeric comparison with a constant
         LET x == r[c.col] y == c.v IN
        (CASE c.o = "==" -> x = y
           [] c.o = "!=" -> x # y
           [] c.o = "<"  -> NLt(x, y)
           [] c.o = "<=" -> NLe(x, y)
           [] c.o = ">"  -> NLt(y, x)
           [] c.o = ">=" -> NLe(y, x))
    [] c.c = "lab" ->                      \* label comparison
         IF c.o = "==" THEN r[c.col] = c.v ELSE r[c.col] # c.v
    [] c.c = "in"  -> r[c.col] \in Range1(c.v)

Keep(rows, where) ==
  IF where = <<>> THEN rows
  ELSE SelectSeq(rows, LAMBDA r : \A i \in DOMAIN where : Sat(where[i], r))

SetToSeqBy(S, V(_)) == LET s == SetToSeq(S) IN [i \in DOMAIN s |-> V(s[i])]

Filter(tb, where) == [tb EXCEPT !.rows = Keep(tb.rows, where)]

(* ---- grouping ---------------------------------------------------------*)
Keys(rows, cs) == {KeyOf(rows[i], cs) : i \in DOMAIN rows}
Sub(rows, cs, k) == SelectSeq(rows, LAMBDA r : KeyOf(r, cs) = k)
Slice(tb, cs, k) == [tb EXCEPT !.rows = Sub(tb.rows, cs, k)]

Rank(tb, col, x) == CHOOSE i \in DOMAIN tb.ord[col] : tb.ord[col][i] = x
(* lexicographic comparison of keys over columns cs                        *)
RECURSIVE KeyLt(_, _, _, _)
KeyLt(tb, cs, a, b) ==
  IF cs = <<>> THEN FALSE
  ELSE LET ra == Rank(tb, Head(cs), Head(a)) rb == Rank(tb, Head(cs), Head(b))
       IN ra < rb \/ (ra = rb /\ KeyLt(tb, Tail(cs), Tail(a), Tail(b)))
SortedKeys(tb, cs, S) == SetToSortSeq(S, LAMBDA a, b : KeyLt(tb, cs, a, b))

Once(S) == CHOOSE d \in S : TRUE      \* Once({f(x) : x \in {e}}) is f(e), but e is evaluated only once

(* ---- frames -----------------------------------------------------------*)
Frame(idx, n, f) == [idx |-> idx, n |-> n, f |-> Force(f)]
NanRow(n) == [i \in 1..n |-> "nan"]
Get(fr, k) == IF k \in DOMAIN fr.f THEN fr.f[k] ELSE NanRow(fr.n)
MapFrame(fr, Op(_)) ==
  Frame(fr.idx, fr.n, [k \in DOMAIN fr.f |-> [i \in 1..fr.n |-> Op(fr.f[k][i])]])

(* positions of the index columns cs inside idx, and projection of a key   *)
Pos(idx, c) == CHOOSE i \in DOMAIN idx : idx[i] = c
Proj(idx, cs, k) == [i \in DOMAIN cs |-> k[Pos(idx, cs[i])]]
Without(idx, cs) == SelectSeq(idx, LAMBDA c : c \notin Range1(cs))
=============================================================================
