------------------------------- MODULE Display -------------------------------
(* What the table of intervals shows (C22).                                     *)
(*                                                                              *)
(* in:   the rows given: s (values of the dimensions), e (experiment), c (its    *)
(*       control, when the table tells), m (metric), v r lo hi (numbers), cv      *)
(*       (value of the control), d (description)                                  *)
(* opts: show, smv, auto, agg, hide, desc (BOOLEANs), control ("none" - no        *)
(*       experiments or no controls, "one", "many", "own"), ctrls (experiments    *)
(*       which are controls), of (experiment -> its control), flip (metrics),     *)
(*       order (metrics), fv fr (formats), sort                                    *)
(* out:  rows: s, e, d, isc (shown as Is_Control, "" if not) and cells; a cell:    *)
(*       v r lo hi (numbers; "" if not there, "-" , "nan" for N/A), uv ur uc        *)
(*       (units) and col ("good", "bad", "")                                        *)
EXTENDS Query

HasE(ev) == ev.opts.control # "noexpr"
Ctrl(ev, x) == \/ ev.opts.control \in {"one", "many"} /\ x.e \in Range1(ev.opts.ctrls)
               \/ ev.opts.control = "own" /\ x.c = x.e
Typed(ev) == ev.opts.control \in {"one", "many", "own"}
CtrlOf(ev, x) == CASE ev.opts.control = "one" -> ev.opts.ctrls[1]
                   [] ev.opts.control = "many" -> ev.opts.of[x.e]
                   [] OTHER -> x.c
DescOf(ev, x) == IF ev.opts.desc /\ Typed(ev) /\ x.d = "" THEN (IF Ctrl(ev, x) THEN "Control" ELSE "Not Control") ELSE x.d

(* controls which are not there, when the others agree on what they are *)
Agree(vs) == \A a \in vs, b \in vs : NLe(NAbs(NSub(a, b)), "1/100000")
CvDup(ev) ==
  LET others == {x \in Range1(ev.in) : ~Ctrl(ev, x)}
      ks == {<<x.s, CtrlOf(ev, x), x.m>> : x \in others}
      vals(k) == {x.cv : x \in {y \in others : y.s = k[1] /\ CtrlOf(ev, y) = k[2] /\ y.m = k[3] /\ y.cv # "nan"}}
      there(k) == \E x \in Range1(ev.in) : Ctrl(ev, x) /\ x.s = k[1] /\ x.e = k[2] /\ x.m = k[3]
  IN [k \in {k \in ks : vals(k) # {} /\ Agree(vals(k)) /\ ~there(k)} |-> CHOOSE v \in vals(k) : \A w \in vals(k) : NLe(v, w)]
Filled(ev) ==
  LET f == IF ev.opts.auto /\ ev.opts.show /\ Typed(ev) THEN CvDup(ev) ELSE [k \in {} |-> ""]
  IN Range1(ev.in) \cup {[s |-> k[1], e |-> k[2], c |-> k[2], m |-> k[3], v |-> f[k], r |-> "nan", lo |-> "nan", hi |-> "nan",
                          cv |-> "nan", d |-> ev.opts.filled] : k \in DOMAIN f}
Shown(ev) == ev.shown
KeysOf(ev) == {<<x.s, x.e>> : x \in Shown(ev)}
(* a result may leave out slices it knows nothing about *)
Needed(ev) == IF "lax" \in DOMAIN ev THEN {<<x.s, x.e>> : x \in {y \in Shown(ev) : \E n \in {y.v, y.r, y.lo, y.hi} : n # "nan"}} ELSE KeysOf(ev)
MetricsOf(ev) == {x.m : x \in Shown(ev)}

(* ---- a cell ---------------------------------------------------------------------------*)
Value(ev, x) == IF ~ev.opts.show /\ ~ev.opts.smv THEN "nan" ELSE x.v
Ratio(ev, x) == IF ev.opts.show /\ Ctrl(ev, x) THEN "nan" ELSE x.r
Null(n) == n = "nan"
Times(f, value) == IF (f = "percent" /\ value) \/ (f = "{:.2%}") THEN "100" ELSE "1"
Places(f) == CASE f = "absolute" -> "1/10000" [] f = "{:.3f}" -> "1/1000" [] OTHER -> "1/100"
UnitOf(f) == CASE f \in {"percent", "{:.2%}"} -> "%" [] f = "pp" -> "pp" [] OTHER -> ""
UnitOfCI(f, a, b) == CASE f = "{:.2%}" -> (IF Null(a) THEN "" ELSE "%") \o (IF Null(b) THEN "" ELSE "%")
                       [] OTHER -> UnitOf(f)
(* the number shown is the number, to the places shown *)
Reads(shown, n, f, value) ==
  IF n = "any" THEN TRUE
  ELSE IF n \in {"nan", "inf", "-inf"} \/ shown \in {"inf", "-inf"} THEN shown = n
  ELSE shown \notin {"nan", "-", ""} /\ NLe(NAbs(NSub(shown, NMul(n, Times(f, value)))), NAdd(NMul(Places(f), "50001/100000"), NMul(NAbs(n), "1/1000000000000")))
CellDiff(ev, x, o) ==
  LET v == Value(ev, x)
      r == Ratio(ev, x)
      good == NLt("0", x.lo) /\ ~Null(x.lo)
      bad == NLt(x.hi, "0") /\ ~Null(x.hi)
      flip == x.m \in Range1(ev.opts.flip)
      col == IF Null(r) THEN "" ELSE IF (good /\ ~flip) \/ (bad /\ flip) THEN "good" ELSE IF (bad /\ ~flip) \/ (good /\ flip) THEN "bad" ELSE ""
      fv == ev.opts.fv
      fr == ev.opts.fr
  IN IF o.col # col THEN "colour: expected " \o col \o ", got " \o o.col
     ELSE IF Null(r) THEN (IF o.r # "" \/ o.lo # "" THEN "a change though there is none"
                           ELSE IF ~Reads(o.v, v, fv, TRUE) THEN "value: expected " \o v \o ", got " \o o.v
                           ELSE IF ~Null(v) /\ v # "any" /\ o.uv # UnitOf(fv) THEN "unit of the value: " \o o.uv ELSE "")
     ELSE IF Null(v) /\ o.v # (IF ev.opts.hide THEN "" ELSE "-") THEN "value: expected none, got " \o o.v
     ELSE IF ~Null(v) /\ ~Reads(o.v, v, fv, TRUE) THEN "value: expected " \o v \o ", got " \o o.v
     ELSE IF ~Null(v) /\ v # "any" /\ o.uv # UnitOf(fv) THEN "unit of the value: " \o o.uv
     ELSE IF ~Reads(o.r, r, fr, FALSE) THEN "change: expected " \o r \o ", got " \o o.r
     ELSE IF o.ur # UnitOf(fr) THEN "unit of the change: " \o o.ur
     ELSE IF ~Reads(o.lo, x.lo, fr, FALSE) \/ ~Reads(o.hi, x.hi, fr, FALSE)
          THEN "interval: expected " \o x.lo \o ", " \o x.hi \o ", got " \o o.lo \o ", " \o o.hi
     ELSE IF o.uc # UnitOfCI(fr, x.lo, x.hi) THEN "unit of the interval: " \o o.uc
     ELSE ""
(* the cell before it is written *)
RawDiff(ev, x, o) ==
  LET same(a, b) == IF a = "any" THEN TRUE ELSE IF a \in {"nan", "inf", "-inf"} \/ b \in {"nan", "inf", "-inf"} THEN a = b ELSE NClose(a, b, Digits)
  IN IF same(Value(ev, x), o.v) /\ same(Ratio(ev, x), o.r) /\ same(x.lo, o.lo) /\ same(x.hi, o.hi) THEN ""
     ELSE "numbers: " \o Join(<<o.v, o.r, o.lo, o.hi>>)

(* ---- the order of rows -------------------------------------------------------------------*)
(* sort: a sequence of [by, m, asc, ord]; by: a dimension (its number), "e", "d", "c" or a field of a metric. *)
(* ev.rank: for every dimension and for e, the order of the labels.                         *)
RankIn(l, a) == IF \E i \in DOMAIN l : l[i] = a THEN CHOOSE i \in DOMAIN l : l[i] = a ELSE Len(l) + 1
RowOf(ev, k) == CHOOSE x \in Shown(ev) : x.s = k[1] /\ x.e = k[2]
CellOf(ev, k, m) == {x \in Shown(ev) : x.s = k[1] /\ x.e = k[2] /\ x.m = m}
(* -1, 0, 1: a before b, either, after *)
Three(a, b) == IF a < b THEN 0 - 1 ELSE IF b < a THEN 1 ELSE 0
NumThree(a, b) == IF Null(a) \/ Null(b) THEN Three(IF Null(a) THEN 1 ELSE 0, IF Null(b) THEN 1 ELSE 0)
                  ELSE IF NLt(a, b) THEN 0 - 1 ELSE IF NLt(b, a) THEN 1 ELSE 0
Field(ev, k, by, m) ==
  LET xs == CellOf(ev, k, m)
      x == CHOOSE x \in xs : TRUE
  IN IF xs = {} THEN "nan" ELSE CASE by = "Value" -> Value(ev, x) [] by = "Ratio" -> Ratio(ev, x) [] by = "CI_Lower" -> x.lo [] OTHER -> x.hi
ByKey(ev, st, a, b) ==
  LET dim == st.by \in DOMAIN ev.dimno
      l == IF st.ord # <<>> THEN st.ord ELSE IF dim THEN ev.rank.s[ev.dimno[st.by]] ELSE ev.rank.e
      lab(k) == IF dim THEN k[1][ev.dimno[st.by]] ELSE k[2]
      c == CASE st.by = "isc" -> Three(IF Ctrl(ev, RowOf(ev, a)) THEN 1 ELSE 0, IF Ctrl(ev, RowOf(ev, b)) THEN 1 ELSE 0)
             [] st.by = "c" -> Three(RankIn(ev.rank.e, CtrlOf(ev, RowOf(ev, a))), RankIn(ev.rank.e, CtrlOf(ev, RowOf(ev, b))))
             [] st.m # "" -> (LET u == Field(ev, a, st.by, st.m)
                                  w == Field(ev, b, st.by, st.m)
                              IN IF Null(u) # Null(w) /\ ~st.asc THEN 0 - NumThree(u, w) ELSE NumThree(u, w))
             [] OTHER -> Three(RankIn(l, lab(a)), RankIn(l, lab(b)))
  IN IF st.asc THEN c ELSE 0 - c
RECURSIVE Before(_, _, _, _)
Before(ev, sort, a, b) ==       \* a may come before b
  IF sort = <<>> THEN TRUE
  ELSE LET c == ByKey(ev, Head(sort), a, b) IN IF c = 0 THEN Before(ev, Tail(sort), a, b) ELSE c < 0
K(by, asc) == [by |-> by, m |-> "", asc |-> asc, ord |-> <<>>]
SortOf(ev) ==
  IF ev.opts.sort # <<>> THEN ev.opts.sort
  ELSE [i \in 1..ev.ndims |-> K(ToString(i), TRUE)] \o (IF Typed(ev) THEN <<K("c", TRUE), K("isc", FALSE)>> ELSE <<>>)
       \o (IF HasE(ev) THEN <<K("e", TRUE)>> ELSE <<>>)

Described(ev) == ev.opts.described \/ (ev.opts.desc /\ Typed(ev))
Info(ev) == IF ev.opts.agg \/ ~ev.opts.info THEN {}
            ELSE (IF Typed(ev) THEN {"Control_Id", "Is_Control"} ELSE {}) \cup (IF Described(ev) THEN {"Description"} ELSE {})
(* ---- the table ------------------------------------------------------------------------------*)
DisplayOf(ev) ==
  IF Shown(ev) = {} THEN "" ELSE         \* nothing to show
  IF ev.out.err # "" THEN "raised " \o ev.out.err
  ELSE
  LET o == ev.out
      key(i) == <<o.rows[i].s, o.rows[i].e>>
      keys == {key(i) : i \in DOMAIN o.rows}
      order == IF ev.opts.order # <<>> THEN SelectSeq(ev.opts.order, LAMBDA m : m \in MetricsOf(ev)) ELSE SelectSeq(ev.rank.m, LAMBDA m : m \in MetricsOf(ev))
      cell(i, j) == LET xs == CellOf(ev, key(i), o.metrics[j])
                        c == o.rows[i].cells[j]
                    IN IF xs # {} THEN (IF ev.opts.raw THEN RawDiff(ev, CHOOSE x \in xs : TRUE, c) ELSE CellDiff(ev, CHOOSE x \in xs : TRUE, c))
                       ELSE IF \A f \in {"v", "r", "lo", "hi"} : c[f] \in {"nan", ""} THEN "" ELSE "there is nothing to show"
      bad == {<<i, j>> \in (DOMAIN o.rows) \X (DOMAIN o.metrics) : cell(i, j) # ""}
      wrongd == {i \in DOMAIN o.rows : o.rows[i].d # "?" /\ o.rows[i].d # DescOf(ev, RowOf(ev, key(i)))}
      wrongc == {i \in DOMAIN o.rows : o.rows[i].isc # "?" /\ o.rows[i].isc # ToString(Ctrl(ev, RowOf(ev, key(i))))}
      swapped == {i \in 1..(Len(o.rows) - 1) : ~Before(ev, SortOf(ev), key(i), key(i + 1))}
  IN IF keys \ KeysOf(ev) # {} THEN "a row which should not be there: " \o ToString(CHOOSE k \in keys \ KeysOf(ev) : TRUE)
     ELSE IF Needed(ev) \ keys # {} THEN "a row is missing: " \o ToString(CHOOSE k \in Needed(ev) \ keys : TRUE)
     ELSE IF Len(o.rows) # Cardinality(keys) THEN "a row is there twice"
     ELSE IF o.metrics # order THEN "metrics: expected " \o Join(order) \o ", got " \o Join(o.metrics)
     ELSE IF bad # {} THEN LET b == CHOOSE b \in bad : TRUE IN ToString(key(b[1])) \o " " \o o.metrics[b[2]] \o ": " \o cell(b[1], b[2])
     ELSE IF wrongd # {} THEN "description of " \o ToString(key(Min(wrongd))) \o ": " \o o.rows[Min(wrongd)].d
     ELSE IF wrongc # {} THEN "control or not: " \o ToString(key(Min(wrongc)))
     ELSE IF Range1(o.info) # Info(ev) THEN "columns on the experiments: " \o Join(o.info)
     ELSE IF \E i \in DOMAIN o.rows : o.rows[i].c # "?" /\ o.rows[i].c # CtrlOf(ev, RowOf(ev, key(i))) THEN "another control"
     ELSE IF swapped # {} THEN "order of " \o ToString(key(Min(swapped))) \o " and the next"
     ELSE IF ~o.drawn THEN "what is drawn is not the table"
     ELSE IF ~o.kept THEN "the table or the options of the caller have changed"
     ELSE ""
(* the rows to be shown are worked out once *)
DisplayDiff(ev0) ==
  Once({DisplayOf(e) : e \in {ev @@ [shown |-> {x \in Filled(ev) : ev.opts.show \/ ~Ctrl(ev, x)}] : ev \in {ev0}}})

(* ---- the table which shows a result with intervals -----------------------------------------*)
(* ev.rows: the result, k (labels of its index), m (the title), v (value and bounds); titles:    *)
(* its titles in order, shown: what the columns are called. ev.cond: the columns which tell       *)
(* experiments (<<>> when the result is no change), ev.base: the label of the control. What          *)
(* the metric is in every experiment is known from the data.                                            *)
BaseOf(ev) ==
  LET t == ev.tree
      c == t.kids[1]
      list(w, k) == [op |-> "List", where |-> w, kids |-> <<k>>]
  IN list(t.where, list(c.where, c.kids[1]))
ResultsOf(ev, F) ==
  LET change == ev.cond # <<>>
      o == ev.opts
      at(k, c) == k[CHOOSE j \in DOMAIN F.idx : F.idx[j] = c]
      lab(k) == IF Len(ev.cond) = 1 THEN at(k, ev.cond[1])
                ELSE "(" \o ev.quoted[1][at(k, ev.cond[1])] \o ", " \o ev.quoted[2][at(k, ev.cond[2])] \o ")"
      ctl == IF ~change THEN "" ELSE IF Len(ev.cond) = 1 THEN ev.base[1] ELSE "(" \o ev.quoted[1][ev.base[1]] \o ", " \o ev.quoted[2][ev.base[2]] \o ")"
      dims == ev.dims
      numbers(k, m) ==
        LET xs == {x \in Range1(ev.rows) : x.m = m /\ \A j \in DOMAIN F.idx : x.k[F.idx[j]] = k[j]}
        IN IF xs = {} THEN <<"nan", "nan", "nan">> ELSE (CHOOSE x \in xs : TRUE).v
      row(s, e, m, v, n) == [s |-> s, e |-> e, c |-> (IF change THEN ctl ELSE ""), m |-> m, v |-> v, r |-> n[1], lo |-> n[2], hi |-> n[3],
                             cv |-> "nan", d |-> ""]
      ins == IF change
             THEN {LET n == numbers(p[1], ev.titles[p[2]])
                   IN row([j \in DOMAIN dims |-> at(p[1], dims[j])], lab(p[1]), ev.shown[p[2]], F.f[p[1]][p[2]], n) : p \in (DOMAIN F.f) \X (1..F.n)}
             ELSE {row([j \in DOMAIN dims |-> x.k[dims[j]]], "", x.m, "nan", x.v) : x \in Range1(ev.rows)}
      said(a, default) == IF a = "default" THEN default ELSE a = "yes"
      opts == [show |-> said(o.show, change), smv |-> said(o.smv, FALSE), auto |-> FALSE, agg |-> said(o.agg, TRUE), hide |-> said(o.hide, TRUE),
               desc |-> said(o.desc, FALSE), control |-> (IF change THEN "one" ELSE "noexpr"), ctrls |-> <<ctl>>, of |-> o.of, flip |-> ev.flip,
               raw |-> o.raw, info |-> said(o.info, FALSE), order |-> (IF ev.order # <<>> THEN ev.order ELSE ev.shown),
               fv |-> (IF ev.fmt THEN o.fv ELSE "absolute"),
               fr |-> (IF ev.fmt THEN o.fr ELSE IF change /\ ev.tree.kids[1].op \in {"Percent", "PrePost"} THEN "percent" ELSE "absolute"),
               described |-> FALSE, sort |-> ev.sort, filled |-> ""]
      d == Once({DisplayDiff(e) : e \in {[lax |-> TRUE, in |-> SetToSeq(ins), opts |-> opts, out |-> ev.out, rank |-> ev.rank, dimno |-> ev.dimno, ndims |-> Len(dims)]}})
  IN IF change /\ F.n # Len(ev.shown) THEN "not as many columns as metrics"
     ELSE d
ResultsDiff(ev) ==
  IF ev.refused # "" THEN ""        \* whether it may be is for others to say
  ELSE Once({ResultsOf(ev, F) : F \in {IF ev.cond = <<>> THEN Frame(<<>>, 0, <<>>) ELSE Eval(BaseOf(ev), ev.tb, ev.sp \o ev.cond)}})
=============================================================================
