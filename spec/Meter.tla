-------------------------------- MODULE Meter --------------------------------
(***************************************************************************)
(* The meaning of metric trees: Eval(t, tb, sp) is the frame that computing *)
(* tree t on table tb split by the columns sp has to return.               *)
(* Every node t has  op  and  where  (a sequence of filters); inner nodes   *)
(* have kids (a sequence).                                                  *)
(***************************************************************************)
EXTENDS Leaf, Fit

Arith(o, a, b) ==
  CASE o = "+" -> NAdd(a, b) [] o = "-" -> NSub(a, b)
    [] o = "*" -> NMul(a, b) [] o = "/" -> NDiv(a, b)
    [] o = "**" -> NPow(a, b)

(* ---- combining frames ---------------------------------------------------*)
Concat0(frs) ==                 \* outer join of frames over the same index
  LET ks == UNION {DOMAIN frs[i].f : i \in DOMAIN frs}
  IN Frame(frs[1].idx, FoldSeq(LAMBDA fr, acc : acc + fr.n, 0, frs),
           [k \in ks |-> FlattenSeq([i \in DOMAIN frs |-> Get(frs[i], k)])])

Concat(frs) == Once({Concat0(f) : f \in {Force(frs)}})

Pairwise(o, A, B, ks, pa(_), pb(_)) ==   \* column-wise, a single column is repeated
  LET n == IF A.n > B.n THEN A.n ELSE B.n
      at(fr, row, i) == row[IF fr.n = 1 THEN 1 ELSE i]
  IN [k \in ks |-> [i \in 1..n |->
        Arith(o, at(A, Get(A, pa(k)), i), at(B, Get(B, pb(k)), i))]]

Combine(o, A, B) ==
  LET n == IF A.n > B.n THEN A.n ELSE B.n IN
  IF A.idx = B.idx
  THEN LET ks == IF A.n = B.n THEN DOMAIN A.f \cup DOMAIN B.f
                 ELSE IF A.n > B.n THEN DOMAIN A.f ELSE DOMAIN B.f
       IN Frame(A.idx, n, Pairwise(o, A, B, ks, LAMBDA k : k, LAMBDA k : k))
  ELSE IF Len(A.idx) > Len(B.idx)        \* B has one value per group of A's rows
  THEN Frame(A.idx, n, Pairwise(o, A, B, DOMAIN A.f, LAMBDA k : k,
                                LAMBDA k : Proj(A.idx, B.idx, k)))
  ELSE Frame(B.idx, n, Pairwise(o, A, B, DOMAIN B.f,
                                LAMBDA k : Proj(B.idx, A.idx, k), LAMBDA k : k))

(* ---- distributions ------------------------------------------------------*)
SliceKeys(fr, cs, s) == {k \in DOMAIN fr.f : Proj(fr.idx, cs, k) = s}
SumOver(ks, V(_)) == LET s == SetToSeq(ks) IN Total(SelectSeq([i \in DOMAIN s |-> V(s[i])], NOk))

Shares(C, sp) ==
  LET slices == {Proj(C.idx, sp, k) : k \in DOMAIN C.f}
      tot == Force([s \in slices |-> [i \in 1..C.n |->
                SumOver(SliceKeys(C, sp, s), LAMBDA k : C.f[k][i])]])
  IN Frame(C.idx, C.n, [k \in DOMAIN C.f |-> [i \in 1..C.n |->
                NDiv(C.f[k][i], tot[Proj(C.idx, sp, k)][i])]])

IndexOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x

(* cumulative shares.  Ties (equal values when sorting by value; several   *)
(* inner groups with the same label otherwise) leave the value open.       *)
Cumulate(t, tb, D0, sp) ==
  LET ov == t.over
      g(k) == Proj(D0.idx, ov, k)
      D == IF t.order = <<>> THEN D0
           ELSE Frame(D0.idx, D0.n, Restrict(D0.f,
                  {k \in DOMAIN D0.f : g(k)[1] \in Range1(t.order)
                                       /\ \A i \in 1..D0.n : NOk(D0.f[k][i])}))
      before(a, b, i) ==           \* a is accumulated strictly before b
        IF t.byval THEN (IF t.asc THEN NLt(D.f[a][i], D.f[b][i]) ELSE NLt(D.f[b][i], D.f[a][i]))
        ELSE IF t.order # <<>>
             THEN LET ia == IndexOf(t.order, g(a)[1]) ib == IndexOf(t.order, g(b)[1])
                  IN IF t.asc THEN ia < ib ELSE ib < ia
        ELSE IF t.asc THEN KeyLt(tb, ov, g(a), g(b)) ELSE KeyLt(tb, ov, g(b), g(a))
      peers(k) == SliceKeys(D, sp, Proj(D.idx, sp, k))
      val(k, i) ==
        IF ~NOk(D.f[k][i]) THEN Unsaid("nan")
        ELSE IF t.byval /\ \E b \in peers(k) : b # k /\ D.f[b][i] = D.f[k][i] THEN "any"
        ELSE IF ~t.byval /\ \E b \in peers(k) : b # k /\ g(b) = g(k) THEN "any"
        ELSE SumOver({b \in peers(k) : b = k \/ before(b, k, i)}, LAMBDA b : D.f[b][i])
  IN Frame(D.idx, D.n, [k \in DOMAIN D.f |-> [i \in 1..D.n |-> val(k, i)]])

(* ---- diversity --------------------------------------------------------------*)
Diversity(t, C, sp) ==
  LET D == Shares(C, sp)
      slices == {Proj(D.idx, sp, k) : k \in DOMAIN D.f}
      col(s, i) == LET ks == SetToSeq(SliceKeys(D, sp, s))
                   IN SelectSeq([j \in DOMAIN ks |-> D.f[ks[j]][i]], NOk)
      one(xs) ==
        CASE t.op = "HHI" -> NSum([j \in DOMAIN xs |-> NSquare(xs[j])])
          [] t.op = "Entropy" ->
               LET pos == SelectSeq(xs, LAMBDA x : NLt("0", x))
               IN NNeg(NSum([j \in DOMAIN pos |-> NMul(pos[j], NLn(pos[j]))]))
          [] t.op = "TopK" ->
               LET s == SortSeq(xs, LAMBDA a, b : NLt(b, a))
               IN NSum(SubSeq(s, 1, IF t.k < Len(s) THEN t.k ELSE Len(s)))
          [] t.op = "Nxx" ->
               LET s == SortSeq(xs, LAMBDA a, b : NLt(b, a))
                   reach == {n \in 1..Len(s) : NLe(t.share, NSum(SubSeq(s, 1, n)))}
               IN IF reach = {} THEN "any" ELSE NInt(Min(reach))
  IN IF sp = <<>> /\ slices = {} THEN Frame(sp, D.n, <<>> :> [i \in 1..D.n |-> "any"])   \* nothing to index
     ELSE Frame(sp, D.n, [s \in slices |-> [i \in 1..D.n |-> one(col(s, i))]])

(* ---- comparisons ------------------------------------------------------------*)
Rebase(idx, cond, base, k) ==        \* the key of the baseline row of k's slice
  [i \in DOMAIN idx |-> IF idx[i] \in Range1(cond) THEN base[IndexOf(cond, idx[i])] ELSE k[i]]
Others(t, ks, idx) ==
  IF t.incl THEN ks ELSE {k \in ks : Proj(idx, t.cond, k) # t.base}
Compare(t, C, Diff(_, _)) ==
  Frame(C.idx, C.n, [k \in Others(t, DOMAIN C.f, C.idx) |-> [i \in 1..C.n |->
        Diff(C.f[k][i], Get(C, Rebase(C.idx, t.cond, t.base, k))[i])]])
Pct(v, b) == NMul(NSub(NDiv(v, b), "1"), "100")
Abs(v, b) == NSub(v, b)
PctFit(v, b) == IF b = "0" THEN "any" ELSE Pct(v, b)   \* a fitted zero is a rounded one

(* ---- Mantel-Haenszel ----------------------------------------------------------*)
MHone(t, A, B, sp) ==        \* A, B: single-column frames over sp, cond and strata
  LET idx == A.idx
      keep == Without(idx, t.strata)
      rows == DOMAIN A.f \cup DOMAIN B.f
      term(k, which) ==
        LET kb == Rebase(idx, t.cond, t.base, k)
            ka == Get(A, k)[1] na == Get(B, k)[1]
            kbv == Get(A, kb)[1] nb == Get(B, kb)[1]
            w == NDiv("1", NAdd(na, nb))
        IN IF which = "a" THEN NMul(NMul(ka, nb), w) ELSE NMul(NMul(kbv, na), w)
      res(g) ==
        LET ks == {k \in rows : Proj(idx, keep, k) = g}
        IN NMul("100", NSub(NDiv(SumOver(ks, LAMBDA k : term(k, "a")),
                                 SumOver(ks, LAMBDA k : term(k, "b"))), "1"))
      gs == {g \in {Proj(idx, keep, k) : k \in rows} :
               t.incl \/ Proj(keep, t.cond, g) # t.base}
  IN Frame(keep, 1, [g \in gs |-> <<res(g)>>])

(* ---- pre-period adjustment ------------------------------------------------------*)
(* Y: frame of the outcomes, Z: frame of the covariates, both over sp,       *)
(* strata and cond. Every outcome is adjusted on its own.                    *)
Centre(Z, sp) ==
  LET slices == {Proj(Z.idx, sp, k) : k \in DOMAIN Z.f}
      m == Force([s \in slices |-> [j \in 1..Z.n |->
              NMean(SetToSeqBy(SliceKeys(Z, sp, s), LAMBDA k : Z.f[k][j]))]])
  IN Frame(Z.idx, Z.n, [k \in DOMAIN Z.f |-> [j \in 1..Z.n |->
              NSub(Z.f[k][j], m[Proj(Z.idx, sp, k)][j])]])

(* ordinary least squares of y on an intercept and the rows z: <<c, slopes>> *)
Fit(ys, zs) == OLS([i \in DOMAIN ys |-> <<"1">> \o zs[i]], ys)

(* Strata without one of the outcomes and covariates are not specified.       *)
Full(Y, Z) == /\ DOMAIN Y.f = DOMAIN Z.f
              /\ \A k \in DOMAIN Y.f : /\ \A c \in 1..Y.n : NOk(Y.f[k][c])
                                       /\ \A c \in 1..Z.n : NOk(Z.f[k][c])
Adjusted(t, Y, Z, sp) ==
  LET same == Full(Y, Z)
      Zc == Centre(Z, sp)
      out == sp \o t.cond
      groups == {Proj(Y.idx, out, k) : k \in DOMAIN Y.f}
      ys(ks, c) == SetToSeqBy(ks, LAMBDA k : Y.f[k][c])
      zs(ks) == SetToSeqBy(ks, LAMBDA k : Zc.f[k])
      prepost(g, c) ==           \* the intercept of the group's own regression
        LET ks == {k \in DOMAIN Y.f : Proj(Y.idx, out, k) = g}
            b == Fit(ys(ks, c), zs(ks))
        IN IF b = <<>> THEN "any" ELSE b[1]
      cuped(g, c) ==             \* mean outcome minus theta times mean covariates
        LET ks == {k \in DOMAIN Y.f : Proj(Y.idx, out, k) = g}
            all == SliceKeys(Y, sp, Proj(out, sp, g))
            b == Fit(ys(all, c), zs(all))
        IN IF b = <<>> THEN "any"
           ELSE NSub(NMean(ys(ks, c)), NSum([j \in 1..Z.n |->
                  NMul(b[j + 1], NMean([i \in DOMAIN zs(ks) |-> zs(ks)[i][j]]))]))
  IN Frame(out, Y.n, [g \in groups |-> [c \in 1..Y.n |-> IF ~same THEN "any" ELSE IF t.op = "CUPED" THEN cuped(g, c) ELSE prepost(g, c)]])

(* ---- standard errors and intervals from replicates -------------------------------*)
(* the sample standard deviation of the available replicates                *)
SampleSD(xs) == NSqrt(Var(xs, 1))
(* the leave-one-out standard error                                          *)
LooSE(xs) == LET n == Len(xs) IN
  IF n < 2 THEN "nan" ELSE NSqrt(NMul(NDiv(NInt(n - 1), NInt(n)), SS(xs)))
(* what is reported for one value: <<value, se>> or <<value, lower, upper>>  *)
Reported(v, se, conf, n) ==
  IF conf = "" THEN <<v, se>>
  ELSE LET h == IF se = "any" THEN "any" ELSE IF n < 2 \/ ~NOk(se) THEN "nan" ELSE NMul(se, TQuantile(conf, NInt(n - 1)))
       IN <<v, NSub(v, h), NAdd(v, h)>>
Width(conf) == IF conf = "" THEN 2 ELSE 3
(* V(k, i) is the sequence of available replicates of cell i of row k        *)
WithError(C, conf, V(_, _), SE(_)) ==
  Frame(C.idx, C.n * Width(conf), [k \in DOMAIN C.f |->
    FlattenSeq([i \in 1..C.n |->
      LET xs == V(k, i) IN Reported(C.f[k][i], SE(xs), conf, Len(xs))])])

(* ---- models ------------------------------------------------------------------------*)
(* what cannot be fitted: missing values, nothing, columns without a norm        *)
Unfit(t, C, sp) ==
  \/ DOMAIN C.f = {}
  \/ \E k \in DOMAIN C.f : \E c \in 1..C.n : C.f[k][c] \in {"nan", "any", "inf", "-inf"}
  \/ t.norm /\ t.icept /\ \E k \in DOMAIN C.f : \E c \in 2..C.n :
       \A k2 \in SliceKeys(C, sp, Proj(C.idx, sp, k)) : C.f[k2][c] = C.f[k][c]

(* ---- the whole language -----------------------------------------------------------*)
RECURSIVE Eval(_, _, _)
Eval(t, tb0, sp) ==
  LET tb == Filter(tb0, t.where)
      kid(i, s) == Eval(t.kids[i], tb, s)
  IN
  CASE t.op \in LeafOps -> EvalLeaf(t, tb, sp)
    [] t.op = "List" -> Concat([i \in DOMAIN t.kids |-> kid(i, sp)])
    [] t.op = "Comp" ->
         LET a == t.kids[1] b == t.kids[2] IN
         IF a.op = "Const" THEN MapFrame(kid(2, sp), LAMBDA x : Arith(t.o, a.v, x))
         ELSE IF b.op = "Const" THEN MapFrame(kid(1, sp), LAMBDA x : Arith(t.o, x, b.v))
         ELSE Combine(t.o, kid(1, sp), kid(2, sp))
    [] t.op = "Distribution" -> Shares(kid(1, sp \o t.over), sp)
    [] t.op = "Cumulative" -> Cumulate(t, tb, Shares(kid(1, sp \o t.over), sp), sp)
    [] t.op \in {"HHI", "Entropy", "TopK", "Nxx"} -> Diversity(t, kid(1, sp \o t.over), sp)
    [] t.op = "Percent" -> Compare(t, kid(1, sp \o t.cond), Pct)
    [] t.op = "Absolute" -> Compare(t, kid(1, sp \o t.cond), Abs)
    [] t.op = "MH" ->
         LET c == t.kids[1] s == sp \o t.cond \o t.strata
             one(m, tb2) == LET tb3 == Filter(tb2, m.where)
                       IN MHone(t, Eval(m.kids[1], tb3, s), Eval(m.kids[2], tb3, s), sp)
         IN IF c.op = "List"
            THEN Concat([i \in DOMAIN c.kids |-> one(c.kids[i], Filter(tb, c.where))])
            ELSE one(c, tb)
    [] t.op \in {"PrePost", "CUPED"} ->
         LET s == sp \o t.strata \o t.cond
             A == Adjusted(t, kid(1, s), kid(2, s), sp)
         IN IF t.op = "CUPED" THEN Compare(t, A, Abs) ELSE Compare(t, A, PctFit)

    [] t.op = "Model" ->                         \* fitted to every slice's rows, one for each group
         LET C == kid(1, sp \o t.by)
             fit(s) == LET ks == SetToSeq(SliceKeys(C, sp, s))
                       IN LinearFit(t, [i \in DOMAIN ks |-> Tail(C.f[ks[i]])], [i \in DOMAIN ks |-> C.f[ks[i]][1]])
             n == IF t.icept THEN C.n ELSE C.n - 1
         IN Frame(sp, n, [s \in {Proj(C.idx, sp, k) : k \in DOMAIN C.f} |->
                    IF Unfit(t, C, sp) THEN [i \in 1..n |-> "any"] ELSE fit(s)])
    [] t.op = "Raw" -> kid(1, sp \o t.over)      \* a user-defined operation: the inner values themselves
    [] t.op = "Slow" ->                          \* a user-defined metric computed slice by slice
         IF sp = <<>> THEN kid(1, sp)
         ELSE LET one == Force([s \in Keys(tb.rows, sp) |-> Eval(t.kids[1], [tb EXCEPT !.rows = Sub(tb.rows, sp, s)], <<>>)])
              IN Frame(sp, 1, [s \in DOMAIN one |-> one[s].f[<<>>]])
    [] t.op = "Jackknife" -> \* every unit of a slice is left out in turn
         LET C == kid(1, sp)
             units == Force([s \in Keys(tb.rows, sp) |-> SetToSeq({r[t.unit] : r \in Range1(Sub(tb.rows, sp, s))})])
             loo(s, u) == Eval(t.kids[1], [tb EXCEPT !.rows =
                             SelectSeq(@, LAMBDA r : KeyOf(r, sp) = s /\ r[t.unit] # u)], sp)
             L == Force([s \in DOMAIN units |-> [j \in DOMAIN units[s] |-> loo(s, units[s][j])]])
             vals(k, i) ==
               LET s == Proj(C.idx, sp, k)
               IN IF s \notin DOMAIN units THEN <<>>
                  ELSE SelectSeq([j \in DOMAIN units[s] |-> Get(L[s][j], k)[i]], NOk)
         IN WithError(C, t.conf, vals, LooSE)

(* the ratios a Mantel-Haenszel node compares, with the rows each one sees  *)
MHRatios(t, tb) ==
  LET c == t.kids[1] IN
  IF c.op = "List" THEN {<<c.kids[i], Filter(tb, c.where)>> : i \in DOMAIN c.kids}
  ELSE {<<c, tb>>}
=============================================================================
