-------------------------------- MODULE Leaf --------------------------------
(***************************************************************************)
(* The base aggregates, as functions of the rows they are given.           *)
(* Agg(t, rows) is a sequence of numbers, one per column of the metric.    *)
(***************************************************************************)
EXTENDS Rel

LeafOps == {"Sum", "Count", "Mean", "Max", "Min", "Dot", "Variance", "StandardDeviation",
            "CV", "Cov", "Correlation", "Quantile", "Nth"}

Col(rows, v) == [i \in DOMAIN rows |-> rows[i][v]]
Vals(rows, v) == SelectSeq(Col(rows, v), NOk)
(* rows on which all the columns of vs are present                          *)
Complete(rows, vs) == SelectSeq(rows, LAMBDA r : \A v \in vs : NOk(r[v]))
Prod(rows, u, v) == [i \in DOMAIN rows |-> NMul(rows[i][u], rows[i][v])]
Prod3(rows, u, v, w) == [i \in DOMAIN rows |-> NMul(rows[i][w], NMul(rows[i][u], rows[i][v]))]

RECURSIVE MaxSeq(_)
MaxSeq(s) == IF s = <<>> THEN "nan" ELSE IF Len(s) = 1 THEN s[1]
             ELSE NMax2(s[1], MaxSeq(Tail(s)))
RECURSIVE MinSeq(_)
MinSeq(s) == IF s = <<>> THEN "nan" ELSE IF Len(s) = 1 THEN s[1]
             ELSE NMin2(s[1], MinSeq(Tail(s)))

SortNum(s) == SortSeq(s, NLt)

(* ---- first and second moments ----------------------------------------*)
(* mean of x weighted by w                                                *)
WMean(rows, x, w) == LET c == Complete(rows, {x, w})
                     IN NDiv(NSum(Prod(c, x, w)), NSum(Col(c, w)))
SS(s) == LET m == NMean(s) IN NSum([i \in DOMAIN s |-> NSquare(NSub(s[i], m))])
Var(s, ddof) == LET n == Len(s) IN
                IF n - ddof <= 0 THEN "nan" ELSE NDiv(SS(s), NInt(n - ddof))
(* sum of w (x - mean)(y - mean) with weighted means, for number sequences *)
Scov(xs, ys, ws) ==
  LET W == NSum(ws)
      mx == NDiv(NSum([i \in DOMAIN xs |-> NMul(ws[i], xs[i])]), W)
      my == NDiv(NSum([i \in DOMAIN ys |-> NMul(ws[i], ys[i])]), W)
  IN NSum([i \in DOMAIN xs |-> NMul(ws[i], NMul(NSub(xs[i], mx), NSub(ys[i], my)))])
Ones(s) == [i \in DOMAIN s |-> "1"]

(* numpy.cov: analytic weights a, frequency weights g                      *)
CovW(xs, ys, as, gs, ddof) ==
  LET ws == [i \in DOMAIN xs |-> NMul(as[i], gs[i])]
      W == NSum(ws)
      Wa == NSum([i \in DOMAIN xs |-> NMul(ws[i], as[i])])
      fact == NSub(W, NMul(NInt(ddof), NDiv(Wa, W)))
  IN IF xs = <<>> \/ W = "0" THEN "nan"
     ELSE IF NLt(fact, "0") THEN "nan"
     ELSE IF fact = "0"
          THEN IF Len(xs) = 1 /\ as = Ones(xs) /\ gs = Ones(xs) THEN "nan" ELSE "any"
     ELSE NDiv(Scov(xs, ys, ws), fact)

WVar(rows, x, w, ddof) ==           \* weighted variance, as documented: denominator W - ddof
  LET c == Complete(rows, {x, w}) xs == Col(c, x) ws == Col(c, w) W == NSum(ws)
      d == NSub(W, NInt(ddof))
  IN IF c = <<>> \/ W = "0" THEN "any" ELSE IF NLt(d, "0") THEN "nan"
     ELSE IF d = "0" THEN "any" ELSE NDiv(Scov(xs, xs, ws), d)

(* ---- ranks and rank correlations --------------------------------------*)
AvgRank(s) == [i \in DOMAIN s |->
   LET less == Cardinality({j \in DOMAIN s : NLt(s[j], s[i])})
       same == Cardinality({j \in DOMAIN s : s[j] = s[i]})
   IN NAdd(NInt(less), NDiv(NInt(same + 1), "2"))]

Pearson(xs, ys, ws) ==
  LET vx == Scov(xs, xs, ws) vy == Scov(ys, ys, ws) IN
  IF Len(xs) < 2 \/ vx = "0" \/ vy = "0" THEN "any"
  ELSE NDiv(Scov(xs, ys, ws), NMul(NSqrt(vx), NSqrt(vy)))

Sgn(a) == IF NLt(a, "0") THEN -1 ELSE IF a = "0" THEN 0 ELSE 1
KendallTauB(xs, ys) ==
  LET n == Len(xs)
      pairs == {p \in (1..n) \X (1..n) : p[1] < p[2]}
      sg(p) == Sgn(NSub(xs[p[1]], xs[p[2]])) * Sgn(NSub(ys[p[1]], ys[p[2]]))
      num == FoldSet(LAMBDA p, acc : acc + sg(p), 0, pairs)
      nx == Cardinality({p \in pairs : xs[p[1]] # xs[p[2]]})
      ny == Cardinality({p \in pairs : ys[p[1]] # ys[p[2]]})
  IN IF nx = 0 \/ ny = 0 THEN "any"
     ELSE NDiv(NInt(num), NMul(NSqrt(NInt(nx)), NSqrt(NInt(ny))))

Corr(t, rows) ==
  LET w == t.weight
      c == Complete(rows, IF w = "" THEN {t.var, t.var2} ELSE {t.var, t.var2, w})
      xs == Col(c, t.var) ys == Col(c, t.var2)
  IN IF w # "" THEN Pearson(xs, ys, Col(c, w))
     ELSE CASE t.method = "pearson" -> Pearson(xs, ys, Ones(xs))
            [] t.method = "spearman" -> Pearson(AvgRank(xs), AvgRank(ys), Ones(xs))
            [] t.method = "kendall" -> KendallTauB(xs, ys)

(* ---- quantiles ----------------------------------------------------------*)
QuantSorted(s, q, how) ==
  LET pos == NMul(NInt(Len(s) - 1), q)
      lo == NFloor(pos)
      fr == NSub(pos, NInt(lo))
      a == s[lo + 1]
      b == IF lo + 2 <= Len(s) THEN s[lo + 2] ELSE s[lo + 1]
  IN CASE how = "linear" -> NAdd(a, NMul(fr, NSub(b, a)))
       [] how = "lower" -> a
       [] how = "higher" -> IF fr = "0" THEN a ELSE b
       [] how = "midpoint" -> IF fr = "0" THEN a ELSE NDiv(NAdd(a, b), "2")
       [] how = "nearest" -> IF fr = "1/2" THEN "any"
                             ELSE IF NLt(fr, "1/2") THEN a ELSE b
Quant(rows, v, q, how) ==
  LET s == SortNum(Vals(rows, v)) IN IF s = <<>> THEN "nan" ELSE QuantSorted(s, q, how)

(* weighted percentile: the distinct values, each at the midpoint of its   *)
(* weight interval, interpolated linearly and clamped at both ends          *)
WQuant(rows, v, w, q) ==
  LET c == Complete(rows, {v, w})
      xs == SortNum(SetToSeq({c[i][v] : i \in DOMAIN c}))
      wt == [i \in DOMAIN xs |-> NSum(SelectSeq(
               [j \in DOMAIN c |-> IF c[j][v] = xs[i] THEN c[j][w] ELSE "0"], NOk))]
      W == NSum(wt)
      p == [i \in DOMAIN xs |->
              NDiv(NSub(NSum(SubSeq(wt, 1, i)), NDiv(wt[i], "2")), W)]
      n == Len(xs)
  IN IF n = 0 THEN "nan"
     ELSE IF NLe(q, p[1]) THEN xs[1]
     ELSE IF NLe(p[n], q) THEN xs[n]
     ELSE LET i == CHOOSE i \in 1..(n-1) : NLe(p[i], q) /\ NLt(q, p[i+1])
          IN NAdd(xs[i], NMul(NDiv(NSub(q, p[i]), NSub(p[i+1], p[i])), NSub(xs[i+1], xs[i])))

(* ---- n-th value -----------------------------------------------------------*)
NthRows(t, rows) ==
  LET r0 == IF t.dropna THEN SelectSeq(rows, LAMBDA r : NOk(r[t.var])) ELSE rows
      lt(a, b) == IF t.asc THEN NLt(a[t.sort], b[t.sort]) ELSE NLt(b[t.sort], a[t.sort])
      ok == SelectSeq(r0, LAMBDA r : NOk(r[t.sort]))
      bad == SelectSeq(r0, LAMBDA r : ~NOk(r[t.sort]))
  IN SortSeq(ok, lt) \o bad          \* missing sort keys come last
NthVal(t, rows) ==
  LET s == NthRows(t, rows) IN IF t.n + 1 > Len(s) THEN "nan" ELSE s[t.n + 1][t.var]

(* ---- the aggregates ---------------------------------------------------------*)
Ddof(t) == IF t.unbiased THEN 1 ELSE 0
StdDev(rows, t) == NSqrt(IF t.weight = "" THEN Var(Vals(rows, t.var), Ddof(t))
                         ELSE WVar(rows, t.var, t.weight, Ddof(t)))
Total(xs) == IF xs = <<>> THEN Unsaid("0") ELSE NSum(xs)
Agg(t, rows) ==
  CASE t.op = "Sum"   -> <<Total(Vals(rows, t.var))>>
    [] t.op = "Count" -> <<NInt(IF t.distinct THEN Cardinality(Range1(Vals(rows, t.var)))
                                ELSE Len(Vals(rows, t.var)))>>
    [] t.op = "Mean"  -> IF t.weight = "" THEN <<NMean(Vals(rows, t.var))>>
                         ELSE <<WMean(rows, t.var, t.weight)>>
    [] t.op = "Max"   -> <<MaxSeq(Vals(rows, t.var))>>
    [] t.op = "Min"   -> <<MinSeq(Vals(rows, t.var))>>
    [] t.op = "Dot"   -> LET c == Complete(rows, {t.var, t.var2})
                             p == Prod(c, t.var, t.var2)
                         IN <<IF t.normalize THEN NMean(p) ELSE Total(p)>>
    [] t.op = "Variance" -> <<IF t.weight = "" THEN Var(Vals(rows, t.var), Ddof(t))
                              ELSE WVar(rows, t.var, t.weight, Ddof(t))>>
    [] t.op = "StandardDeviation" -> <<StdDev(rows, t)>>
    [] t.op = "CV"    -> <<NDiv(NSqrt(Var(Vals(rows, t.var), Ddof(t))), NMean(Vals(rows, t.var)))>>
    [] t.op = "Cov"   ->
         LET cs == {t.var, t.var2} \cup (IF t.weight = "" THEN {} ELSE {t.weight})
                   \cup (IF t.fweight = "" THEN {} ELSE {t.fweight})
             c == Complete(rows, cs)
             xs == Col(c, t.var)
             as == IF t.weight = "" THEN Ones(xs) ELSE Col(c, t.weight)
             gs == IF t.fweight = "" THEN Ones(xs) ELSE Col(c, t.fweight)
             dd == IF t.ddof >= 0 THEN t.ddof ELSE IF t.bias THEN 0 ELSE 1
         IN <<CovW(xs, Col(c, t.var2), as, gs, dd)>>
    [] t.op = "Correlation" -> <<Corr(t, rows)>>
    [] t.op = "Quantile" ->
         [i \in DOMAIN t.q |-> IF t.weight = "" THEN Quant(rows, t.var, t.q[i], t.interp)
                               ELSE WQuant(rows, t.var, t.weight, t.q[i])]
    [] t.op = "Nth" -> <<NthVal(t, rows)>>

NCols(t) == IF t.op = "Quantile" THEN Len(t.q) ELSE 1

EvalLeaf(t, tb, sp) ==
  IF sp = <<>> THEN Frame(<<>>, NCols(t), (<<>> :> Agg(t, tb.rows)))
  ELSE LET ks == Keys(tb.rows, sp)
       IN Frame(sp, NCols(t), [k \in ks |-> Agg(t, Sub(tb.rows, sp, k))])
=============================================================================
