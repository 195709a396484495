------------------------------- MODULE Oracle -------------------------------
(***************************************************************************)
(* Trace specification for recorded computations.                          *)
(*                                                                         *)
(* Every line of the trace file is one computation that the real library   *)
(* was asked for: a table, a metric tree, the split columns, and what it   *)
(* returned (out).  The state machine takes each recorded computation from *)
(* "recorded" to "accepted" when the specification allows the result, and  *)
(* to "rejected" otherwise; the verdict with the failing clause is printed. *)
(***************************************************************************)
EXTENDS Display, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.MS_TRACE)
N == Len(Trace)



(* the first disagreement between an expected frame and an observed one,    *)
(* or "" when the observation is the expected one                            *)
ValueDiff(e, o, okeys, digits) ==
  LET bad == {i \in DOMAIN o.rows : \E j \in 1..e.n :
                ~NClose(e.f[okeys[i]][j], o.rows[i].v[j], digits)}
  IN IF bad = {} THEN ""
     ELSE LET i == CHOOSE i \in bad : \A m \in bad : i <= m
              j == CHOOSE j \in 1..e.n : ~NClose(e.f[okeys[i]][j], o.rows[i].v[j], digits)
          IN "value at [" \o Join(okeys[i]) \o "] column " \o ToString(j) \o ": expected "
             \o e.f[okeys[i]][j] \o ", got " \o o.rows[i].v[j]

FrameDiffTo(e, o, digits) ==
  LET okeys == [i \in DOMAIN o.rows |-> o.rows[i].k]
      oset == Range1(okeys)
      eset == DOMAIN e.f
  IN
  IF o.err # "" THEN "raised " \o o.err
  ELSE IF eset = {} /\ oset \subseteq {<<>>} THEN ""            \* nothing to report
  ELSE IF o.idx # e.idx THEN "index: expected [" \o Join(e.idx) \o "], got [" \o Join(o.idx) \o "]"
  ELSE IF o.n # e.n THEN "columns: expected " \o ToString(e.n) \o ", got " \o ToString(o.n)
  ELSE IF Len(okeys) # Cardinality(oset) THEN "duplicate slices"
  ELSE IF \E k \in eset : k \notin oset
       THEN LET k == CHOOSE k \in eset : k \notin oset IN "slice lost: [" \o Join(k) \o "]"
  ELSE IF \E k \in oset : k \notin eset
       THEN LET k == CHOOSE k \in oset : k \notin eset IN "slice invented: [" \o Join(k) \o "]"
  ELSE ValueDiff(e, o, okeys, digits)
FrameDiff(e, o) == FrameDiffTo(e, o, Digits)

(* A comparison with a baseline that occurs nowhere in the data the metric *)
(* sees has no meaning: nothing is said about the outcome.                  *)
RECURSIVE HasModel(_)
HasModel(t) == \/ t.op = "Model"
               \/ "kids" \in DOMAIN t /\ \E i \in DOMAIN t.kids : HasModel(t.kids[i])
RECURSIVE MayRefuse(_, _, _)
MayRefuse(t, tb0, sp) ==
  LET tb == Filter(tb0, t.where)
      base(fr) == t.base \notin {Proj(fr.idx, t.cond, k) : k \in DOMAIN fr.f}
      inner == IF t.op \in {"Distribution", "Cumulative", "HHI", "Entropy", "TopK", "Nxx"} THEN sp \o t.over
               ELSE IF t.op \in {"Percent", "Absolute"} THEN sp \o t.cond
               ELSE IF t.op \in {"MH", "PrePost", "CUPED"} THEN sp \o t.strata \o t.cond
               ELSE IF t.op = "Model" THEN sp \o t.by
               ELSE sp
  IN IF t.op \in LeafOps \cup {"Const"} THEN FALSE
     ELSE \/ /\ t.op = "Jackknife"                    \* nothing to leave out
             /\ \/ Cardinality({r[t.unit] : r \in Range1(tb.rows)}) < 2
                \/ LET e == Eval([t EXCEPT !.conf = "", !.where = <<>>], tb, sp)
                   IN \A k \in DOMAIN e.f : \A i \in 1..e.n : i % 2 = 1 \/ e.f[k][i] \in {"nan", "any"}
          \/ /\ t.op \in {"Percent", "Absolute", "PrePost", "CUPED"}
             /\ base(Eval(t.kids[1], tb, inner))
          \/ /\ t.op \in {"PrePost", "CUPED"}
             /\ ~Full(Eval(t.kids[1], tb, inner), Eval(t.kids[2], tb, inner))
          \/ /\ t.op = "MH"
             /\ \E r \in MHRatios(t, tb) : base(Eval(r[1], r[2], inner))
          \/ /\ t.op = "Jackknife" /\ HasModel(t.kids[1])   \* a replicate is lost with one of its fits
             /\ \E u \in {r[t.unit] : r \in Range1(tb.rows)} :
                  MayRefuse(t.kids[1], [tb EXCEPT !.rows = SelectSeq(@, LAMBDA r : r[t.unit] # u)], sp)
          \/ t.op = "Model" /\ Unfit(t, Eval(t.kids[1], tb, inner), sp)
          \/ \E i \in DOMAIN t.kids : MayRefuse(t.kids[i], tb, inner)

(* ---- relations between recorded results ---------------------------------*)
(* two recorded results are the same; with titles, so are the column names   *)
SameDiff(a, o, titles) ==
  IF a.err # "" THEN (IF o.err # "" THEN "" ELSE "raised " \o a.err \o " in one of two equal situations")
  ELSE LET d == FrameDiff(AsFrame(a), o)
       IN IF d # "" THEN d
          ELSE IF Len(a.rows) # Len(o.rows) THEN "number of rows differs"
          ELSE IF titles /\ a.cols # o.cols
               THEN "titles: [" \o Join(a.cols) \o "] and [" \o Join(o.cols) \o "]"
          ELSE ""
FirstDiff(ds) ==
  LET bad == {i \in DOMAIN ds : ds[i] # ""}
  IN IF bad = {} THEN "" ELSE LET i == Min(bad) IN "variant " \o ToString(i) \o ": " \o ds[i]
SameAll(outs, titles) ==
  FirstDiff([i \in DOMAIN outs |-> IF i = 1 THEN "" ELSE SameDiff(outs[1], outs[i], titles)])

(* a split result is the union of the unsplit results of its slices: parts   *)
(* is the sequence of [k, out] recorded slice by slice                       *)
SlicesDiff(ev) ==
  LET o == ev.out
      want == Keys(Filter(ev.tb, ev.tree.where).rows, ev.sp)
      ks == {ev.parts[i].k : i \in DOMAIN ev.parts}
      ok == SelectSeq(ev.parts, LAMBDA p : p.out.err = "")
      fail == {p.k : p \in {ev.parts[i] : i \in {i \in DOMAIN ev.parts : ev.parts[i].out.err # ""}}}
      n == IF ok = <<>> THEN 0 ELSE ok[1].out.n
      idx == ev.sp \o (IF ok = <<>> THEN <<>> ELSE ok[1].out.idx)
      rows == {<<p, i>> \in (DOMAIN ok) \X (1..200) : i \in DOMAIN ok[p].out.rows}
      f == [key \in {ok[r[1]].k \o ok[r[1]].out.rows[r[2]].k : r \in rows} |->
              LET r == CHOOSE r \in rows : ok[r[1]].k \o ok[r[1]].out.rows[r[2]].k = key
              IN ok[r[1]].out.rows[r[2]].v]
      part(k) == SubSeq(k, 1, Len(ev.sp))
      mine == [o EXCEPT !.rows = SelectSeq(o.rows, LAMBDA r : part(r.k) \notin fail)]
  IN IF o.err # "" THEN (IF fail # {} \/ MayRefuse(ev.tree, ev.tb, ev.sp) THEN "" ELSE "raised " \o o.err \o " although every slice can be computed")
     ELSE IF ks # want THEN "harness: slices asked for are not the slices of the table"
     ELSE IF ok = <<>> THEN ""
     ELSE LET d == FrameDiff(Frame(idx, n, f), mine) IN
          IF d # "" THEN d
          ELSE IF ok[1].out.cols # o.cols THEN "titles differ between split and unsplit result"
          ELSE ""

(* a list against its members computed on their own                         *)
MembersDiff(ev) ==
  IF \E i \in DOMAIN ev.alone : ev.alone[i].err # "" THEN ""    \* what a failing member does is C15's
  ELSE LET fs == [i \in DOMAIN ev.alone |-> AsFrame(ev.alone[i])]
           full == SelectSeq(fs, LAMBDA f : DOMAIN f.f # {})
           titles == FlattenSeq([i \in DOMAIN ev.alone |-> ev.alone[i].cols])
           want == IF ev.want = <<>> THEN titles ELSE ev.want
           idx == IF full = <<>> THEN <<>> ELSE full[1].idx
           d == FrameDiff(Concat([i \in DOMAIN fs |-> [fs[i] EXCEPT !.idx = idx]]), ev.out)
       IN IF d # "" THEN d
          ELSE IF ev.out.cols # want THEN "titles: expected [" \o Join(want) \o "], got [" \o Join(ev.out.cols) \o "]"
          ELSE ""

(* a bootstrap: the draws are legal, every replicate is the inner metric on  *)
(* the drawn rows, and what is reported follows from the replicates           *)
BootDiff(ev, diff(_, _)) ==
  LET tb == Filter(ev.tb, ev.tree.where)
      C == Eval(ev.tree.kids[1], tb, ev.sp)
      d == IF ev.out.n # C.n * Width(ev.tree.conf)
           THEN "columns: expected " \o ToString(C.n * Width(ev.tree.conf)) \o ", got " \o ToString(ev.out.n)
           ELSE IF ev.hooked THEN RepsDiff(ev) ELSE ""
      \* no replicate could be computed: nothing drawn, or no baseline drawn
      hopeless == /\ ev.none
                  /\ \/ ev.tree.op = "Poisson" /\ (IF ev.tree.unit = "" THEN Len(tb.rows) ELSE Cardinality({r[ev.tree.unit] : r \in Range1(tb.rows)})) < 4
                     \/ \E i \in DOMAIN ev.tree.kids[1].kids : ev.tree.kids[1].kids[i].op \in {"Percent", "Absolute"}
  IN IF ev.out.err # "" THEN (IF hopeless \/ MayRefuse(ev.tree.kids[1], tb, ev.sp) \/ tb.rows = <<>> THEN "" ELSE "raised " \o ev.out.err)
     ELSE IF d # "" THEN (IF MayRefuse(ev.tree.kids[1], tb, ev.sp) THEN "" ELSE d)
     ELSE IF ev.hooked
     THEN diff(BootFrame(ev, C, [r \in DOMAIN ev.reps |-> AsFrame([ev.reps[r] EXCEPT !.n = C.n])]), ev.out)
     ELSE ""

(* ---- models (C21) -------------------------------------------------------------*)
(* members: titles of the outcome and the features; pre: what goes in front        *)
ModelTitles(ev) ==
  LET names == Tail(ev.members) IN
  [i \in DOMAIN (IF ev.tree.icept THEN ev.members ELSE names) |->
     ev.pre \o (IF ev.tree.icept THEN (IF i = 1 THEN "intercept" ELSE names[i - 1]) ELSE names[i])]
LogitDiff(ev) ==
  LET t == ev.tree
      tb == Filter(ev.tb, t.where)
      C == Eval(t.kids[1], tb, ev.sp \o t.by)
      keys(s) == SetToSeq(SliceKeys(C, ev.sp, s))
      labels(s) == {C.f[k][1] : k \in SliceKeys(C, ev.sp, s)}
      sorted(S) == SortSeq(SetToSeq(S), NLt)
      slices == {Proj(C.idx, ev.sp, k) : k \in DOMAIN C.f}
      all == UNION {labels(s) : s \in slices}
      sh == IF t.icept THEN 0 ELSE 1
      m == C.n - sh
      n == IF Cardinality(all) = 2 THEN 1 ELSE Cardinality(all)
      B(v) == [c \in 1..n |-> SubSeq(v, (c - 1) * m + 1, c * m)]
      \* the solver of scikit-learn for l1 stops when a first pass leaves every coefficient at 0
      stopped(v) == "stalls" \in DOMAIN t /\ \A j \in DOMAIN v : ~NLt("0", NAbs(v[j]))
      bad == {i \in DOMAIN ev.out.rows :
                LET s == ev.out.rows[i].k ks == keys(s) IN
                ~stopped(ev.out.rows[i].v) /\ ~LogitOptimal(t, [j \in DOMAIN ks |-> Tail(C.f[ks[j]])], [j \in DOMAIN ks |-> C.f[ks[j]][1]], sorted(all), B(ev.out.rows[i].v), ev.eps)}
      d == FrameDiff(Frame(ev.sp, m * n, [s \in slices |-> [i \in 1..(m * n) |-> "any"]]), ev.out)
  IN IF Unfit(t, C, ev.sp) \/ ev.runs \/ \E s \in slices : labels(s) # all \/ Cardinality(all) < 2 THEN ""   \* nothing is said
     ELSE IF d # "" THEN d
     ELSE IF bad # {} THEN LET i == CHOOSE i \in bad : TRUE IN "not an optimum at [" \o Join(ev.out.rows[i].k) \o "]"
     ELSE IF n = 1 /\ ev.out.cols # ModelTitles(ev) THEN "titles: expected [" \o Join(ModelTitles(ev)) \o "], got [" \o Join(ev.out.cols) \o "]"
     ELSE ""
ModelDiff(ev) ==
  IF ev.tree.kind = "Logistic" THEN LogitDiff(ev)
  ELSE LET e == Eval(ev.tree, ev.tb, ev.sp)
           \* a solver which says that it has not converged is near
           d == FrameDiffTo(e, ev.out, IF "warned" \in DOMAIN ev /\ ev.warned THEN 3 ELSE Digits)
           singular == \E k \in DOMAIN e.f : \E c \in 1..e.n : e.f[k][c] = "any"
       IN IF MayRefuse(ev.tree, ev.tb, ev.sp) \/ ("how" \in DOMAIN ev /\ singular /\ ev.out.err # "") THEN ""
          ELSE IF d # "" THEN d
          ELSE IF ev.out.rows # <<>> /\ ev.out.cols # ModelTitles(ev)
               THEN "titles: expected [" \o Join(ModelTitles(ev)) \o "], got [" \o Join(ev.out.cols) \o "]"
          ELSE ""

(* ---- equality of definitions (C16) ----------------------------------------*)
(* eq[i][j], fp[i][j]: whether definitions i and j compare equal (as they are,  *)
(* and with their names blanked), whether their fingerprints are the same;         *)
(* copies[i], marks[i]: whether i and its fingerprint equal those of a copy and of a  *)
(* second one built alike; hs: hashes.                                               *)
Alike(a, b) == \/ DOMAIN a.f = {} /\ DOMAIN b.f = {}
               \/ /\ a.idx = b.idx /\ a.n = b.n /\ DOMAIN a.f = DOMAIN b.f
                  /\ \A k \in DOMAIN a.f : \A c \in 1..a.n :
                       "any" \in {a.f[k][c], b.f[k][c]} \/ NClose(a.f[k][c], b.f[k][c], Digits)
RECURSIVE Draws(_)
Draws(t) == \/ t.op \in {"Bootstrap", "Poisson", "Model"}
            \/ "kids" \in DOMAIN t /\ \E i \in DOMAIN t.kids : Draws(t.kids[i])
RECURSIVE Custom(_)      \* classes of the user's: every instance has its own fingerprint
Custom(t) == \/ t.op \in {"Raw", "Slow"}
             \/ "kids" \in DOMAIN t /\ \E i \in DOMAIN t.kids : Custom(t.kids[i])
SameNumbers(ev, i, j) ==
  LET bad == {c \in DOMAIN ev.cases :
        LET a == ev.outs[i][c] b == ev.outs[j][c] tb == ev.tables[ev.cases[c].t + 1] sp == ev.cases[c].sp
        IN \/ a.err = "" /\ b.err = "" /\ SameDiff(a, b, FALSE) # ""
           \/ ~Draws(ev.trees[i]) /\ ~Draws(ev.trees[j]) /\ ~Alike(Eval(ev.trees[i], tb, sp), Eval(ev.trees[j], tb, sp))}
  IN bad = {}
EqualDiff(ev) ==
  LET n == DOMAIN ev.trees
      same(i, j) == ev.eq[i][j] \/ ev.blank[i][j] \/ ev.fp[i][j]
      lied == {p \in n \X n : p[1] < p[2] /\ same(p[1], p[2]) /\ ~SameNumbers(ev, p[1], p[2])}
      r(m) == IF \E i \in n : ~m[i][i] THEN "not reflexive"
              ELSE IF \E i, j \in n : m[i][j] # m[j][i] THEN "not symmetric"
              ELSE IF \E i, j, k \in n : m[i][j] /\ m[j][k] /\ ~m[i][k] THEN "not transitive" ELSE ""
  IN IF ev.raised # "" THEN "comparing raised " \o ev.raised
     ELSE IF \E i \in n : ~ev.copies[i] THEN "a copy or an equal definition is not equal"
     ELSE IF \E i \in n : ~ev.marks[i] /\ ~Custom(ev.trees[i]) THEN "equal definitions have different fingerprints"
     ELSE IF r(ev.eq) # "" THEN "== is " \o r(ev.eq)
     ELSE IF r(ev.blank) # "" THEN "== is " \o r(ev.blank)
     ELSE IF \E i, j \in n : ev.eq[i][j] /\ ev.hs[i] # ev.hs[j] THEN "equal definitions have different hashes"
     ELSE IF lied # {} THEN LET p == CHOOSE p \in lied : TRUE IN
            "definitions " \o ToString(p) \o " are told to be the same but give different numbers"
     ELSE ""

(* ---- the forms of a result (C17) ------------------------------------------*)
(* titles of a wide result: first level of its column labels; w columns each  *)
SubTitles(o, w) == [j \in 1..w |-> Tail(o.tc[j])]
ShapeDiff(o, w) ==
  IF o.n = 0 \/ o.n % w # 0 \/ Len(o.tc) # o.n THEN "wide form has " \o ToString(o.n) \o " columns"
  ELSE IF \E i \in 1..o.n : LET g == ((i - 1) \div w) * w + 1
                             IN o.tc[i][1] # o.tc[g][1] \/ Tail(o.tc[i]) # SubTitles(o, w)[i - g + 1]
  THEN "columns of one metric are not together"
  ELSE ""
LongOf(o, w) ==
  LET titles == [i \in 1..(o.n \div w) |-> o.tc[(i - 1) * w + 1][1]]
  IN [idx |-> <<"Metric">> \o o.idx, n |-> w, err |-> "",
      tc |-> IF w = 1 THEN <<<<"s:Value">>>> ELSE SubTitles(o, w),
      rows |-> FlattenSeq([i \in DOMAIN titles |-> [r \in DOMAIN o.rows |->
                 [k |-> <<titles[i]>> \o o.rows[r].k, v |-> SubSeq(o.rows[r].v, (i - 1) * w + 1, i * w)]]])]
(* same content, wherever the rows are                                        *)
FormDiff(e, o) ==
  IF o.err # "" THEN "raised " \o o.err
  ELSE IF e.idx # o.idx THEN "index columns: expected [" \o Join(e.idx) \o "], got [" \o Join(o.idx) \o "]"
  ELSE IF e.tc # o.tc THEN "titles differ: " \o ToString(e.tc) \o " and " \o ToString(o.tc)
  ELSE IF Len(e.rows) # Len(o.rows) THEN "rows: expected " \o ToString(Len(e.rows)) \o ", got " \o ToString(Len(o.rows))
  ELSE FrameDiff(AsFrame(e), o)
FormatsDiff(ev) ==
  LET w == ev.w
      s == ShapeDiff(ev.wide, w)
      one(a) ==
        LET d == CASE a.of = "long" -> FormDiff(ev.long, a.out)
                   [] a.of = "wide" -> FormDiff(ev.wide, a.out)
                   [] a.of = "raw" -> FormDiff([ev.wide EXCEPT !.tc = a.out.tc], a.out)
        IN IF d = "" THEN "" ELSE a.what \o ": " \o d
  IN IF ev.wide.err # "" /\ ev.long.err # "" THEN ""          \* refused in either form
     ELSE IF ev.wide.err # "" \/ ev.long.err # "" THEN "only one of the forms raised " \o ev.wide.err \o ev.long.err
     ELSE IF ev.wide.rows = <<>> THEN (IF ev.long.rows = <<>> THEN "" ELSE "long form of an empty result has rows")
     ELSE IF s # "" THEN s
     ELSE LET d == FormDiff(LongOf(ev.wide, w), ev.long)
          IN IF d # "" THEN "long form: " \o d ELSE First([i \in DOMAIN ev.again |-> one(ev.again[i])])

(* ---- queries (C18, C19) -----------------------------------------------------*)
(* A query reports the slices of the data, memory those with something in     *)
(* them; rows that consist of missing values only say nothing.                *)
(* Infinities do not exist in SQL.                                            *)
Blank(x) == x \in {"nan", "any", "inf", "-inf"}
Asked(e, o) ==
  LET said == {o.rows[i].k : i \in {i \in DOMAIN o.rows : \E j \in DOMAIN o.rows[i].v : o.rows[i].v[j] # "nan"}}
      ks == {k \in DOMAIN e.f : k \in said \/ \E j \in 1..e.n : ~Blank(e.f[k][j])}
      fin(x) == IF x \in {"inf", "-inf"} THEN "nan" ELSE x
      e1 == Frame(e.idx, e.n, [k \in ks |-> [j \in 1..e.n |-> fin(e.f[k][j])]])
      o1 == [o EXCEPT !.rows = [m \in DOMAIN o.rows |-> [k |-> o.rows[m].k, v |-> [j \in DOMAIN o.rows[m].v |-> fin(o.rows[m].v[j])]]]]
      o2 == [o1 EXCEPT !.rows = SelectSeq(@, LAMBDA r : r.k \in ks \cup said)]
      dup == Cardinality({o.rows[i].k : i \in DOMAIN o.rows}) # Len(o.rows)
      d == FrameDiff(e1, o2)
  IN IF o.err = "" /\ dup THEN "duplicate slices" ELSE d
(* Asked for one unit at a time, a jackknife is refused when a unit is the     *)
(* only one with the baseline (a known finding; in memory it is left out).     *)
LeavesNoBase(ev) ==
  LET t == ev.tree tb == Filter(ev.tb, t.where)
  IN /\ "mode" \in DOMAIN ev.how /\ "strict" \notin DOMAIN ev.how
     /\ t.op = "Jackknife"
     /\ \E u \in {r[t.unit] : r \in Range1(tb.rows)} :
          MayRefuse(t.kids[1], [tb EXCEPT !.rows = SelectSeq(@, LAMBDA r : r[t.unit] # u)], ev.sp)
QueryDiff(ev) ==
  LET o == ev.out
      d == Asked(Eval(ev.tree, ev.tb, ev.sp), o)
  IN IF d # "" THEN d
     ELSE IF ev.titles # <<>> /\ o.err = "" /\ ev.titles # o.cols
          THEN "titles: in memory [" \o Join(ev.titles) \o "], in SQL [" \o Join(o.cols) \o "]"
     ELSE ""

(* ---- a session: many computations with the same objects (C14, C15) --------*)
(* Every answer is the answer of a new metric, whatever happened before (for   *)
(* what is drawn at random: recorded from a new object with the same draws);   *)
(* and nothing but the result and the cache passed is changed.                      *)
RECURSIVE Resamples(_)
Resamples(t) == \/ t.op \in {"Jackknife", "Bootstrap", "Poisson"}
                \/ "kids" \in DOMAIN t /\ \E i \in DOMAIN t.kids : Resamples(t.kids[i])
Member(t, i) == [t EXCEPT !.kids = [j \in 1..(Len(@) - 1) |-> IF j < i THEN @[j] ELSE @[j + 1]]]
StepDiff(st, o, tables) ==
  LET tb == tables[st.t + 1]
      t == st.tree
  IN IF o.trace # "" THEN o.trace
     ELSE IF o.tripped /\ Resamples(t) THEN ""
     ELSE IF o.tripped /\ t.op = "List" /\ Len(t.kids) > 1
     THEN IF \E i \in DOMAIN t.kids : FrameDiff(Eval(Member(t, i), tb, st.sp), o.out) = "" THEN ""
          ELSE "not what the members which did not fail give"
     ELSE IF o.tripped THEN (IF o.out.err # "" THEN "" ELSE "an answer though an inner metric failed")
     ELSE IF st.drawn THEN SameDiff(o.fresh, o.out, TRUE)
     ELSE IF "how" \in DOMAIN st                      \* asked of a database
     THEN LET d == Asked(Eval(t, tb, st.sp), o.out)
          IN IF d = "" \/ MayRefuse(t, tb, st.sp) \/ (o.out.err # "" /\ LeavesNoBase([tree |-> t, tb |-> tb, sp |-> st.sp, how |-> st.how]))
             THEN "" ELSE d
     ELSE LET d == FrameDiff(Eval(t, tb, st.sp), o.out)
          IN IF d = "" \/ MayRefuse(t, tb, st.sp) THEN "" ELSE d
SessionDiff(ev) ==
  LET ds == [i \in DOMAIN ev.outs |-> StepDiff(ev.steps[i], ev.outs[i], ev.tables)]
      bad == {i \in DOMAIN ds : ds[i] # ""}
  IN IF bad = {} THEN "" ELSE LET i == Min(bad) IN "step " \o ToString(i) \o ": " \o ds[i]

(* ---- building queries (C20): what they mean is said in Query -----------------*)
ColumnsDiff(ev) ==
  LET ids == [i \in DOMAIN ev.tb.rows |-> ev.tb.rows[i].t]
      row(t) == ev.tb.rows[CHOOSE i \in DOMAIN ids : ids[i] = t]
      bad == {<<i, j>> \in (DOMAIN ev.out) \X (DOMAIN ev.exprs) :
                ~NClose(AVal(ev.exprs[j], row(ev.tcol[i])), ev.out[i][j], Digits)}
  IN IF Range1(ev.tcol) # Range1(ids) \/ Len(ev.tcol) # Len(ids) THEN "rows were lost"
     ELSE IF bad = {} THEN ""
     ELSE LET b == CHOOSE b \in bad : TRUE IN "expression " \o ToString(b[2]) \o ": expected " \o
            AVal(ev.exprs[b[2]], row(ev.tcol[b[1]])) \o ", got " \o ev.out[b[1]][b[2]]
FiltersDiff(ev) ==
  LET RECURSIVE Through(_, _)
      Through(tb, cs) == IF cs = <<>> THEN tb ELSE Through(Filter(tb, Head(cs)), Tail(cs))
      want == {r.t : r \in Range1(Through(ev.tb, ev.conds).rows)}
      bad == {i \in DOMAIN ev.outs : Range1(ev.outs[i]) # want \/ Len(ev.outs[i]) # Cardinality(want)}
  IN IF bad = {} THEN "" ELSE "way " \o ToString(Min(bad)) \o " lets other rows through"
SubqueriesDiff(ev) ==
  LET d(i, o) == IF Hollow(ev, i) THEN "" ELSE FrameDiff(AnswerOf(ev, i), o)
      bad == {i \in DOMAIN ev.steps : d(i, ev.outs[i]) # ""}
  IN IF bad # {} THEN LET i == Min(bad) IN "query " \o ToString(i) \o ": " \o d(i, ev.outs[i])
     ELSE IF "nest" \in DOMAIN ev /\ d(ev.nest + 1, ev.nested) # "" THEN "nested: " \o d(ev.nest + 1, ev.nested)
     ELSE IF \E i \in DOMAIN ev.steps : ~Hollow(ev, i) /\ FrameDiff(LastOf(ev, i), ev.stacks[i]) # ""
          THEN LET i == Min({i \in DOMAIN ev.steps : ~Hollow(ev, i) /\ FrameDiff(LastOf(ev, i), ev.stacks[i]) # ""})
               IN "stacked " \o ToString(i) \o ": " \o FrameDiff(LastOf(ev, i), ev.stacks[i])
     ELSE IF ~ev.twice THEN "printing changes the text"
     ELSE ""

Judge(ev) ==
  CASE ev.kind = "eval" ->
         LET d == FrameDiff(Eval(ev.tree, ev.tb, ev.sp), ev.out)
         IN IF d # "" /\ MayRefuse(ev.tree, ev.tb, ev.sp) THEN "" ELSE d
    [] ev.kind = "sql" ->
         LET d == IF "reps" \in DOMAIN ev THEN BootDiff(ev, Asked) ELSE QueryDiff(ev)
         IN IF d # "" /\ (MayRefuse(ev.tree, ev.tb, ev.sp) \/ (ev.out.err # "" /\ LeavesNoBase(ev))) THEN "" ELSE d
    [] ev.kind = "same" -> SameAll(ev.outs, ev.titles)
    [] ev.kind = "members" -> MembersDiff(ev)
    [] ev.kind = "slices" -> SlicesDiff(ev)
    [] ev.kind = "boot" -> BootDiff(ev, FrameDiff)
    [] ev.kind = "draws" -> DrawsDiff(ev)
    [] ev.kind = "formats" -> FormatsDiff(ev)
    [] ev.kind = "session" -> SessionDiff(ev)
    [] ev.kind = "equal" -> EqualDiff(ev)
    [] ev.kind = "model" -> ModelDiff(ev)
    [] ev.kind = "titles" -> TitlesDiff(ev)
    [] ev.kind = "columns" -> ColumnsDiff(ev)
    [] ev.kind = "filters" -> FiltersDiff(ev)
    [] ev.kind = "subqueries" -> SubqueriesDiff(ev)
    [] ev.kind = "texts" -> TextDiff(ev)
    [] ev.kind = "display" -> DisplayDiff(ev)
    [] ev.kind = "results" -> ResultsDiff(ev)

VARIABLES i, st
Init == i \in 1..N /\ st = "recorded"
Verdict(id, d) == PrintT("V|" \o id \o "|" \o (IF d = "" THEN "ok" ELSE "bad") \o "|" \o d)
Next ==
  /\ st = "recorded"
  /\ LET d == Judge(Trace[i]) IN
       /\ Verdict(Trace[i].id, d)
       /\ st' = IF d = "" THEN "accepted" ELSE "rejected"
  /\ i' = i
Spec == Init /\ [][Next]_<<i, st>>
=============================================================================
