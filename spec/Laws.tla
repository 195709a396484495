-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* What the semantics has to satisfy.  The state is a table that grows row  *)
(* by row (in a fixed order of kinds of rows, so that every multiset of at  *)
(* most MaxRows rows is reached once); the invariant are the laws of one    *)
(* property, chosen by the environment, over every such table.  These laws  *)
(* do not follow from the definitions by rewriting: closed forms, bounds,    *)
(* decompositions, invariances.  They are what the documentation promises,   *)
(* and tie the semantics the recorded computations are judged by to it.      *)
(***************************************************************************)
EXTENDS Resample, IOUtils

Prop == IOEnv.MS_LAW
MaxRows == NFloor(IOEnv.MS_ROWS)
Has(x) == x \in {"C23", "C02", "C03", "C11", "C12"}   \* properties whose laws need the missing value

(* ---- tables ------------------------------------------------------------------*)
(* g, u: labels; x, y: numbers (y is a function of the kind of row, so that it    *)
(* differs from x but takes no states of its own); one: 1                          *)
Xs == IF Has(Prop) THEN <<"nan", "0", "1", "3">> ELSE <<"0", "1", "3">>
Kinds == {<<g, u, i>> : g \in {"a", "b"}, u \in {"p", "q"}, i \in DOMAIN Xs}
KindLe(a, b) == LET n(k) == (IF k[1] = "a" THEN 0 ELSE 100) + (IF k[2] = "p" THEN 0 ELSE 10) + k[3] IN n(a) <= n(b)
RowOf(k) == [g |-> k[1], u |-> k[2], x |-> Xs[k[3]], one |-> "1",
             y |-> NAdd(NInt(k[3] * k[3]), IF k[2] = "p" THEN "1/2" ELSE "2"),
             w |-> IF k[1] = "a" THEN "2" ELSE "1/2"]
VARIABLE ks
Init == ks = <<>>
Next == /\ Len(ks) < MaxRows
        /\ \E k \in Kinds : (IF ks = <<>> THEN TRUE ELSE KindLe(ks[Len(ks)], k)) /\ ks' = Append(ks, k)
Ord == [g |-> <<"a", "b">>, u |-> <<"p", "q">>]
TableOf(rows) == [rows |-> rows, ord |-> Ord]
Tb == TableOf([i \in DOMAIN ks |-> RowOf(ks[i])])
Empty == ks = <<>>

(* ---- trees --------------------------------------------------------------------*)
Sum(v) == [op |-> "Sum", where |-> <<>>, var |-> v]
Count(v) == [op |-> "Count", where |-> <<>>, var |-> v, distinct |-> FALSE]
Mean(v) == [op |-> "Mean", where |-> <<>>, var |-> v, weight |-> ""]
WMeanOf(v, w) == [op |-> "Mean", where |-> <<>>, var |-> v, weight |-> w]
Leaf1(op, v) == [op |-> op, where |-> <<>>, var |-> v, weight |-> "", unbiased |-> TRUE]
Dot(u, v, n) == [op |-> "Dot", where |-> <<>>, var |-> u, var2 |-> v, normalize |-> n]
Cov(u, v, w) == [op |-> "Cov", where |-> <<>>, var |-> u, var2 |-> v, weight |-> w, fweight |-> "", bias |-> FALSE, ddof |-> 0 - 1]
Corr1(u, v, m) == [op |-> "Correlation", where |-> <<>>, var |-> u, var2 |-> v, weight |-> "", method |-> m]
Qu(v, q, w, how) == [op |-> "Quantile", where |-> <<>>, var |-> v, q |-> q, weight |-> w, interp |-> how]
Comp(o, a, b) == [op |-> "Comp", where |-> <<>>, o |-> o, kids |-> <<a, b>>]
Const(v) == [op |-> "Const", where |-> <<>>, v |-> v]
ListOf(ms) == [op |-> "List", where |-> <<>>, kids |-> ms]
Ratio(a, b) == Comp("/", Sum(a), Sum(b))
Over(op, c, over) == [op |-> op, where |-> <<>>, over |-> over, kids |-> <<c>>, order |-> <<>>, asc |-> TRUE, byval |-> FALSE, k |-> 1, share |-> "1/2"]
Change(op, c, base, incl) == [op |-> op, where |-> <<>>, cond |-> <<"g">>, base |-> <<base>>, incl |-> incl, kids |-> <<c>>]
Jack(c, conf) == [op |-> "Jackknife", where |-> <<>>, unit |-> "u", conf |-> conf, kids |-> <<c>>]
Where(t, cs) == [t EXCEPT !.where = cs]
NumIs(o, v) == [c |-> "num", col |-> "x", o |-> o, v |-> v]
Lab(c, v) == [c |-> "lab", col |-> c, o |-> "==", v |-> v]
Not(c) == [c |-> "not", a |-> c]
Both(a, b) == [c |-> "and", a |-> a, b |-> b]
Either(a, b) == [c |-> "or", a |-> a, b |-> b]

V(t, rows) == Eval(t, TableOf(rows), <<>>).f[<<>>][1]       \* an unsplit number
At(e, k) == e.f[k][1]
Eq(a, b) == a = b \/ "any" \in {a, b} \/ (a # "nan" /\ b # "nan" /\ NClose(a, b, 12))
AllRows == Tb.rows
Say(p, what) == p \/ (PrintT(what) /\ FALSE)        \* p; what is printed when it does not hold

Leaves == {Sum("x"), Count("x"), [Count("x") EXCEPT !.distinct = TRUE], Mean("x"), WMeanOf("x", "w"), Leaf1("Max", "x"), Leaf1("Min", "x"),
           Leaf1("Variance", "x"), [Leaf1("Variance", "x") EXCEPT !.unbiased = FALSE], Leaf1("StandardDeviation", "x"),
           Leaf1("CV", "x"), Dot("x", "y", FALSE), Dot("x", "y", TRUE), Cov("x", "y", ""), Corr1("x", "y", "spearman"),
           Qu("x", <<"1/4", "1/2">>, "", "linear"), Qu("x", <<"1/2">>, "w", "linear")}
Trees == Leaves \cup
         {Ratio("x", "y"), ListOf(<<Sum("x"), Mean("y")>>), Comp("-", Mean("x"), Const("1")), Where(Sum("x"), <<NumIs(">", "0")>>),
          Over("Distribution", Sum("y"), <<"u">>), Over("HHI", Sum("y"), <<"u">>), Over("Entropy", Count("y"), <<"u">>),
          Over("Cumulative", Sum("y"), <<"u">>),
          [Change("Percent", Ratio("x", "y"), "p", FALSE) EXCEPT !.cond = <<"u">>],
          [Change("Absolute", Mean("x"), "q", TRUE) EXCEPT !.cond = <<"u">>],
          Jack(Sum("x"), ""), Jack(Mean("y"), "9/10")}

(* ---- C01: a split result is the slices' results ------------------------------------*)
Rest(e, k) == [r \in {SubSeq(q, 2, Len(q)) : q \in {q \in DOMAIN e.f : q[1] = k}} |-> e.f[<<k>> \o r]]
L01 == \A t \in Trees :
         LET e == Eval(t, Tb, <<"g">>) IN
         \A k \in {r.g : r \in Range1(Keep(AllRows, t.where))} : Say(Rest(e, k) = Eval(t, Slice(Tb, <<"g">>, <<k>>), <<>>).f, <<t, AllRows, Rest(e, k), Eval(t, Slice(Tb, <<"g">>, <<k>>), <<>>).f>>)

(* ---- C02: relations between the aggregates --------------------------------------------*)
Bounded(lo, v, hi) == v = "nan" \/ (NLe(lo, v) /\ NLe(v, hi))
L02 == LET R == AllRows n == V(Count("x"), R) s == V(Sum("x"), R) m == V(Mean("x"), R)
           lo == V(Leaf1("Min", "x"), R) hi == V(Leaf1("Max", "x"), R) var == V(Leaf1("Variance", "x"), R)
           pop == V([Leaf1("Variance", "x") EXCEPT !.unbiased = FALSE], R)
           sq == V(Dot("x", "x", FALSE), R)
           q(p, how) == V(Qu("x", <<p>>, "", how), R)
           ps == <<"0", "1/4", "1/2", "2/3", "1">>
       IN /\ m = NDiv(s, n) /\ Bounded(lo, m, hi)
          /\ pop = (IF n = "0" THEN "nan" ELSE NSub(NDiv(sq, n), NSquare(m)))        \* second moment less squared mean
          /\ var = (IF n \in {"0", "1"} THEN "nan" ELSE NMul(pop, NDiv(n, NSub(n, "1"))))
          /\ Eq(V(Leaf1("StandardDeviation", "x"), R), IF var = "nan" THEN "nan" ELSE NSqrt(var))
          /\ n = "0" \/ NLe("0", pop)
          /\ NLe(V([Count("x") EXCEPT !.distinct = TRUE], R), n)
          /\ V(Dot("x", "x", TRUE), R) = NDiv(sq, n)
          /\ V(Cov("x", "x", ""), R) = var /\ V(Cov("x", "y", ""), R) = V(Cov("y", "x", ""), R)
          /\ \A mt \in {"pearson", "spearman", "kendall"} :
               LET c == V(Corr1("x", "y", mt), R) IN /\ c = V(Corr1("y", "x", mt), R)
                                                    /\ c # "any" => Bounded("-1000000001/1000000000", c, "1000000001/1000000000")
                                                    /\ Eq(V(Corr1("y", "y", mt), R), "1")
          /\ \A how \in {"linear", "lower", "higher", "midpoint"} :
               /\ q("0", how) = lo /\ q("1", how) = hi
               /\ \A i \in 1..4 : n = "0" \/ NLe(q(ps[i], how), q(ps[i + 1], how))
          /\ \A i \in 1..5 : n = "0" \/ (NLe(q(ps[i], "lower"), q(ps[i], "linear")) /\ NLe(q(ps[i], "linear"), q(ps[i], "higher")))
          /\ \A i \in 1..5 : LET wq == V(Qu("x", <<ps[i]>>, "w", "linear"), R) IN Bounded(lo, wq, hi)
          \* weights that are all the same do not matter; weights count rows
          /\ V(WMeanOf("x", "one"), R) = m
          /\ V([Leaf1("Variance", "x") EXCEPT !.weight = "one"], R) \in {var, "any"}
          /\ \A t \in {WMeanOf("y", "w"), [Leaf1("Variance", "y") EXCEPT !.weight = "w", !.unbiased = FALSE]} :
               Eq(V(t, R), V(t, [i \in DOMAIN R |-> [R[i] EXCEPT !.w = NMul("4", @)]]))
          \* a sum and an extreme over all rows come from those over the parts
          /\ LET e == Eval(Sum("x"), Tb, <<"g">>) IN s = NSum(SetToSeqBy(DOMAIN e.f, LAMBDA k : At(e, k)))
          /\ LET e == Eval(Leaf1("Max", "x"), Tb, <<"u">>) IN
               hi = MaxSeq(SelectSeq(SetToSeqBy(DOMAIN e.f, LAMBDA k : At(e, k)), NOk))
          \* affine changes of the data
          /\ LET A == [i \in DOMAIN R |-> [R[i] EXCEPT !.x = NSub("5", NMul("2", @))]] IN
               /\ V(Mean("x"), A) = NSub("5", NMul("2", m)) /\ V(Leaf1("Variance", "x"), A) = NMul("4", var)
               /\ V(Leaf1("Min", "x"), A) = NSub("5", NMul("2", hi))
               /\ V(Qu("x", <<"1/4">>, "", "linear"), A) = NSub("5", NMul("2", q("3/4", "linear")))
               /\ V(Cov("x", "y", ""), A) = NMul("-2", V(Cov("x", "y", ""), R))

(* ---- C03: filters ------------------------------------------------------------------------*)
Filters == {NumIs(">", "0"), NumIs("==", "1"), NumIs("<=", "1"), Lab("g", "a"), Lab("u", "q"), [c |-> "in", col |-> "g", v |-> <<"a", "z">>]}
L03 == \A c \in Filters :
         LET R == AllRows IN
         /\ V(Sum("y"), R) = NAdd(V(Where(Sum("y"), <<c>>), R), V(Where(Sum("y"), <<Not(c)>>), R))
         /\ V(Count("y"), R) = NAdd(V(Where(Count("y"), <<c>>), R), V(Where(Count("y"), <<Not(c)>>), R))
         /\ \A d \in Filters : \A t \in {Sum("y"), Leaf1("Variance", "y"), Over("Distribution", Sum("y"), <<"u">>)} :
              LET both == Eval(Where(t, <<c, d>>), Tb, <<"g">>) IN
              /\ both = Eval(Where(t, <<d, c>>), Tb, <<"g">>)
              /\ both = Eval(Where(t, <<Both(c, d)>>), Tb, <<"g">>)
              /\ both = Eval(Where(t, <<Not(Either(Not(c), Not(d)))>>), Tb, <<"g">>)
              /\ both = Eval(Where(ListOf(<<Where(t, <<d>>)>>), <<c>>), Tb, <<"g">>)      \* a parent's and a child's
              /\ both = Eval(t, TableOf(Keep(R, <<c, d>>)), <<"g">>)
         \* only the filtered operand of an operation loses rows
         /\ LET e == Eval(Comp("-", Sum("y"), Where(Sum("y"), <<c>>)), Tb, <<"g">>) IN
              \A k \in DOMAIN e.f : LET S == Slice(Tb, <<"g">>, k).rows S2 == Keep(S, <<Not(c)>>) IN
                 At(e, k) = (IF Keep(S, <<c>>) = <<>> THEN "nan" ELSE NSum(Col(S2, "y")))

(* ---- C04: arithmetic and lists -----------------------------------------------------------*)
L04 == \A a \in {Sum("x"), Mean("y"), Over("Distribution", Sum("y"), <<"u">>)} : \A b \in {Count("x"), Leaf1("Max", "y")} :
         LET e(t) == Eval(t, Tb, <<"g">>)
             same(t, s) == DOMAIN e(t).f = DOMAIN e(s).f /\ \A k \in DOMAIN e(t).f : Eq(At(e(t), k), At(e(s), k))
         IN /\ same(Comp("+", a, b), Comp("+", b, a)) /\ same(Comp("*", a, b), Comp("*", b, a))
            /\ same(Comp("-", Comp("+", a, b), b), a) /\ same(Comp("/", Comp("*", a, b), b), a)
            /\ same(Comp("-", a, b), Comp("+", a, Comp("*", b, Const("-1"))))
            /\ same(Comp("/", a, b), Comp("*", a, Comp("/", Const("1"), b)))
            /\ same(Comp("**", b, Const("2")), Comp("*", b, b))
            /\ same(Comp("+", Comp("*", a, Const("3")), Comp("*", b, Const("3"))), Comp("*", Comp("+", a, b), Const("3")))
            /\ LET l == e(ListOf(<<a, b>>)) IN
                 a.op # "Distribution" => (l.n = 2 /\ \A k \in DOMAIN l.f : l.f[k] = <<At(e(a), k), At(e(b), k)>>)
            /\ a.op # "Distribution" => e(ListOf(<<ListOf(<<a, b>>), a>>)) = e(ListOf(<<a, b, a>>))

(* ---- C05: distributions ---------------------------------------------------------------------*)
L05 == \A v \in {"x", "y"} : \A s \in {<<>>, <<"g">>} :
         LET D == Eval(Over("Distribution", Sum(v), <<"u">>), Tb, s)
             C(asc) == Eval([Over("Cumulative", Sum(v), <<"u">>) EXCEPT !.asc = asc], Tb, s)
             W == Eval(Over("Distribution", Comp("*", Sum(v), Const("7")), <<"u">>), Tb, s)
             slices == {Proj(D.idx, s, k) : k \in DOMAIN D.f}
             tot(q) == V(Sum(v), Sub(AllRows, s, q))
         IN \A q \in slices : tot(q) # "0" =>
              LET kk == SliceKeys(D, s, q) IN
              /\ NSum(SetToSeqBy(kk, LAMBDA k : At(D, k))) = "1"
              /\ \A k \in kk : /\ Bounded("0", At(D, k), "1") /\ At(D, k) = At(W, k)
                               /\ NMul(At(D, k), tot(q)) = At(Eval(Sum(v), Tb, s \o <<"u">>), k)
              /\ \E k \in kk : At(C(TRUE), k) = "1"
              /\ \A k \in kk : LET a == At(C(TRUE), k) b == At(C(FALSE), k) IN NSub(NAdd(a, b), At(D, k)) = "1"
              /\ \A k, m \in kk : KeyLt(Tb, D.idx, k, m) => NLe(At(C(TRUE), k), At(C(TRUE), m))

(* ---- C06: changes --------------------------------------------------------------------------*)
L06 == \A t \in {Sum("y"), Mean("x"), Ratio("x", "y")} : \A s \in {<<>>, <<"u">>} :
         LET f(op, base, incl) == Eval(Change(op, t, base, incl), Tb, s)
             v == Eval(t, Tb, s \o <<"g">>)
             swap(k) == [k EXCEPT ![Len(k)] = IF @ = "a" THEN "b" ELSE "a"]
             at(e, k) == Get(e, k)[1]
         IN /\ DOMAIN f("Absolute", "a", TRUE).f = DOMAIN v.f
            /\ DOMAIN f("Absolute", "a", FALSE).f = {k \in DOMAIN v.f : k[Len(k)] # "a"}
            /\ \A k \in DOMAIN v.f :
                 LET ab == at(f("Absolute", "a", TRUE), k) pc == at(f("Percent", "a", TRUE), k) IN
                 /\ k[Len(k)] = "a" => (ab \in {"0", "nan"} /\ (at(v, k) \notin {"0", "nan"} => pc = "0"))
                 /\ k[Len(k)] = "b" =>
                      /\ ab = at(f("Absolute", "a", FALSE), k) /\ pc = at(f("Percent", "a", FALSE), k)
                      /\ swap(k) \in DOMAIN v.f =>
                           /\ ab = NNeg(at(f("Absolute", "b", FALSE), swap(k)))
                           /\ LET b0 == at(v, swap(k)) IN
                              /\ b0 \notin {"0", "nan"} => pc = NMul("100", NDiv(ab, b0))
                              /\ (b0 \notin {"0", "nan"} /\ at(v, k) \notin {"0", "nan"}) =>
                                     NMul(NAdd("1", NDiv(pc, "100")), NAdd("1", NDiv(at(f("Percent", "b", FALSE), swap(k)), "100"))) = "1"
            \* a percent change has no scale, an absolute one no origin
            /\ t.op # "Comp" =>
                 /\ f("Percent", "a", FALSE) = Eval(Change("Percent", Comp("*", t, Const("1/8")), "a", FALSE), Tb, s)
                 /\ f("Absolute", "a", FALSE) = Eval(Change("Absolute", Comp("+", t, Const("9")), "a", FALSE), Tb, s)

(* ---- C07: Mantel-Haenszel -------------------------------------------------------------------*)
MHOf(base, incl) == [op |-> "MH", where |-> <<>>, cond |-> <<"g">>, base |-> <<base>>, incl |-> incl, strata |-> <<"u">>, kids |-> <<Ratio("x", "one")>>]
L07 == LET both(u) == {r.g : r \in {r \in Range1(AllRows) : r.u = u}} = {"a", "b"}
           us == {r.u : r \in Range1(AllRows)}
           mh(base) == At(Eval(MHOf(base, TRUE), Tb, <<>>), <<IF base = "a" THEN "b" ELSE "a">>)
           rt(g, u) == V(Ratio("x", "one"), SelectSeq(AllRows, LAMBDA r : r.g = g /\ r.u = u))
           bad(x) == x \in {"0", "nan", "inf", "-inf"}
       IN (us # {} /\ \A u \in us : both(u)) =>
            \* one stratum: the change of the ratio
            /\ (Cardinality(us) = 1 /\ \A u \in us : ~bad(rt("a", u))) =>
                 mh("a") = At(Eval(Change("Percent", Ratio("x", "one"), "a", FALSE), Tb, <<>>), <<"b">>)
            \* the two directions are inverse to each other
            /\ (~bad(mh("a")) /\ ~bad(mh("b")) /\ mh("a") # "-100" /\ mh("b") # "-100") =>
                 NMul(NAdd("1", NDiv(mh("a"), "100")), NAdd("1", NDiv(mh("b"), "100"))) = "1"
            \* between the changes of the strata
            /\ (\A u \in us : ~bad(rt("a", u))) =>
                 LET ch(u) == Pct(rt("b", u), rt("a", u)) c == SetToSeqBy(us, LAMBDA u : ch(u)) IN
                 Bounded(MinSeq(c), mh("a"), MaxSeq(c))
            /\ LET e == Eval(MHOf("a", TRUE), Tb, <<>>) IN (~bad(rt("a", "p")) /\ ~bad(rt("a", "q"))) => At(e, <<"a">>) = "0"

(* ---- C08: adjustment by a covariate ----------------------------------------------------------*)
(* every row is a stratum of its own; x: outcome, z: covariate                                    *)
L08 == LET n == Len(ks)
           z(i) == NInt((i * i) % 3)
           name(i) == <<"s1", "s2", "s3", "s4", "s5", "s6">>[i]
           tab(adj(_)) == [rows |-> [i \in 1..n |-> [g |-> ks[i][1], s |-> name(i), x |-> NAdd(Xs[ks[i][3]], adj(z(i))), z |-> z(i), one |-> "1"]],
                           ord |-> [g |-> <<"a", "b">>, s |-> <<"s1", "s2", "s3", "s4", "s5", "s6">>]]
           T(op) == [op |-> op, where |-> <<>>, cond |-> <<"g">>, base |-> <<"a">>, incl |-> FALSE, strata |-> <<"s">>, kids |-> <<Sum("x"), Sum("z")>>]
           plain == tab(LAMBDA v : "0")
           shifted == tab(LAMBDA v : NAdd("4", v))              \* a constant and a multiple of the covariate
           sloped == tab(LAMBDA v : NMul("-3/2", v))
           gs == {ks[i][1] : i \in 1..n}
           val(op, t) == At(Eval(T(op), t, <<>>), <<"b">>)
           zs(g) == SetToSeqBy({i \in 1..n : ks[i][1] = g}, LAMBDA i : z(i))
           xs(g) == SetToSeqBy({i \in 1..n : ks[i][1] = g}, LAMBDA i : Xs[ks[i][3]])
       IN gs = {"a", "b"} =>
            \* the covariate's own share of the outcome never matters
            /\ Eq(val("CUPED", plain), val("CUPED", shifted)) /\ Eq(val("CUPED", plain), val("CUPED", sloped))
            \* groups alike in the covariate: nothing to adjust
            /\ NMean(zs("a")) = NMean(zs("b")) => Eq(val("CUPED", plain), NSub(NMean(xs("b")), NMean(xs("a"))))
            \* the adjusted level of a group, as its regression at the mean covariate
            /\ LET pre == val("PrePost", plain)
                   zall == NMean([i \in 1..n |-> z(i)])
                   line(g) == LET v == Var(zs(g), 0) IN
                     IF v = "0" THEN "any" ELSE NAdd(NMean(xs(g)), NMul(NDiv(NDiv(Scov(xs(g), zs(g), Ones(xs(g))), NInt(Len(xs(g)))), v), NSub(zall, NMean(zs(g)))))
               IN "any" \in {line("a"), line("b"), pre} \/ line("a") = "0" \/ Eq(pre, Pct(line("b"), line("a")))
            /\ Eq(val("PrePost", plain), LET d(v) == v IN val("PrePost", plain))

(* ---- C09: concentration ------------------------------------------------------------------------*)
L09 == \A c \in {Sum("y"), Count("x")} : \A s \in {<<>>, <<"g">>} :
         LET over == IF s = <<>> THEN <<"g", "u">> ELSE <<"u">>
             f(t) == Eval([t EXCEPT !.over = over, !.kids = <<c>>], Tb, s)
             hhi == f(Over("HHI", c, over)) ent == f(Over("Entropy", c, over))
             top(k) == f([Over("TopK", c, over) EXCEPT !.k = k])
             nxx(p) == f([Over("Nxx", c, over) EXCEPT !.share = p])
             D == f(Over("Distribution", c, over))
         IN Empty \/
            \A q \in DOMAIN hhi.f :
              LET sh == SetToSeqBy(SliceKeys(D, s, q), LAMBDA k : At(D, k))
                  n == NInt(Len(sh))
                  eps == "1/1000000000000"
              IN /\ NLe(NDiv("1", n), At(hhi, q)) /\ NLe(At(hhi, q), "1")
                 /\ NLe(NNeg(eps), At(ent, q)) /\ NLe(At(ent, q), NAdd(eps, NLn(n)))
                 /\ NLe(NNeg(NLn(At(hhi, q))), NAdd(eps, At(ent, q)))         \* Renyi entropies fall with their order
                 /\ (At(hhi, q) = "1") = (n = "1")
                 /\ At(top(1), q) = MaxSeq(sh) /\ NLe(At(hhi, q), At(top(1), q)) /\ NLe(NSquare(At(top(1), q)), At(hhi, q))
                 /\ NLe(At(top(1), q), At(top(2), q)) /\ At(top(9), q) = "1"
                 /\ NLe("1", At(nxx("1/10"), q)) /\ NLe(At(nxx("1/2"), q), At(nxx("9/10"), q)) /\ NLe(At(nxx("1"), q), n)
                 /\ (NLe("1/2", At(top(1), q))) = (At(nxx("1/2"), q) = "1")
                 /\ \A p \in {"1/2", "9/10"} : NLe(p, At(top(NFloor(At(nxx(p), q))), q))

(* ---- C10: the jackknife -------------------------------------------------------------------------*)
L10 == LET e(t, s) == Eval(t, Tb, s)
           us(R) == {r.u : r \in Range1(R)}
           part(R, u) == SelectSeq(R, LAMBDA r : r.u = u)
       IN \A s \in {<<>>, <<"g">>} : Empty \/
          \A q \in DOMAIN e(Sum("x"), s).f :
            LET R == Sub(AllRows, s, q) n == Cardinality(us(R))
                j(t) == e(Jack(t, ""), s).f[q]
                ci(t) == e(Jack(t, "9/10"), s).f[q]
                sums == SetToSeqBy(us(R), LAMBDA u : V(Sum("x"), part(R, u)))
            IN \* leaving units out of a sum: the spread of the units' sums
               /\ Eq(j(Sum("x"))[2], IF n < 2 THEN "nan" ELSE NSqrt(NMul(NDiv(NInt(n - 1), NInt(n)), SS(sums))))
               /\ j(Sum("x"))[1] = V(Sum("x"), R)
               \* a unit per row: the standard error of the mean
               /\ (n = Len(R) /\ n >= 2) => Eq(NSquare(j(Mean("x"))[2]), NDiv(Var(Col(R, "x"), 1), NInt(n)))
               \* scale and origin
               /\ Eq(j(Comp("*", Mean("x"), Const("-3")))[2], NMul("3", j(Mean("x"))[2]))
               /\ Eq(j(Comp("+", Mean("x"), Const("11")))[2], j(Mean("x"))[2])
               \* an interval is the value and the standard error
               /\ LET v == ci(Mean("x")) w == j(Mean("x")) IN
                    IF w[2] = "nan" THEN v = <<w[1], "nan", "nan">>
                    ELSE /\ v[1] = w[1] /\ Eq(NSub(v[3], v[2]), NMul("2", NMul(w[2], TQuantile("9/10", NInt(n - 1)))))
                         /\ Eq(NAdd(v[3], v[2]), NMul("2", w[1]))

(* ---- C11, C12: what can be drawn, and what it is decoded to ----------------------------------------*)
Drawn(R, d) == [i \in 1..Len(d) |-> R[d[i]]]
Inds == <<"i1", "i2", "i3", "i4">>
WithInd(n) == [rows |-> [i \in 1..n |-> [g |-> RowOf(ks[i]).g, u |-> RowOf(ks[i]).u, x |-> RowOf(ks[i]).x, y |-> RowOf(ks[i]).y,
                  i1 |-> IF i = 1 THEN "1" ELSE "0", i2 |-> IF i = 2 THEN "1" ELSE "0", i3 |-> IF i = 3 THEN "1" ELSE "0", i4 |-> IF i = 4 THEN "1" ELSE "0"]],
               ord |-> Ord]
Inner(n) == ListOf([i \in 1..n |-> Sum(Inds[i])] \o <<Mean("y"), Leaf1("Variance", "y")>>)
Recorded(e) == [idx |-> e.idx, n |-> e.n, err |-> "", rows |-> SetToSeqBy(DOMAIN e.f, LAMBDA k : [k |-> k, v |-> e.f[k]])]
EvOf(op, n, sp, reps) == [tree |-> [op |-> op, where |-> <<>>, n |-> Len(reps), conf |-> "", unit |-> "", kids |-> <<Inner(n)>>],
                          tb |-> WithInd(n), sp |-> sp, k |-> n, ind |-> SubSeq(Inds, 1, n), units |-> SubSeq(Inds, 1, n),
                          reps |-> reps, partial |-> FALSE, hooked |-> TRUE]
Replicate(n, sp, rows) == Recorded(Eval(Inner(n), [WithInd(n) EXCEPT !.rows = rows], sp))
Times(R, m) == FlattenSeq([i \in DOMAIN R |-> [c \in 1..m[i] |-> R[i]]])
Spoil(o) == [o EXCEPT !.rows[1].v = [i \in DOMAIN @ |-> IF i = Len(@) - 1 THEN NAdd("1", @[i]) ELSE @[i]]]
L11 == LET n == Len(ks) R == WithInd(n).rows IN n = 0 \/ n > 3 \/
       /\ \A d \in [1..n -> 1..n] :                   \* every honest draw is accepted
            LET o == Replicate(n, <<>>, Drawn(R, d)) IN
            /\ RepsDiff(EvOf("Bootstrap", n, <<>>, <<o, o>>)) = ""
            /\ RepsDiff(EvOf("Bootstrap", n, <<>>, <<o, Spoil(o)>>)) # ""       \* another number is not
       /\ \A d \in [1..(n + 1) -> 1..n] : RepsDiff(EvOf("Bootstrap", n, <<>>, <<Replicate(n, <<>>, Drawn(R, d))>>)) # ""   \* a row too many
       \* slices are drawn on their own
       /\ \A d \in [1..n -> 1..n] :
            LET o == Replicate(n, <<"g">>, Drawn(R, d))
                own == \A g \in {"a", "b"} : Cardinality({i \in 1..n : R[i].g = g}) = Cardinality({i \in 1..n : R[d[i]].g = g})
            IN (RepsDiff(EvOf("Bootstrap", n, <<"g">>, <<o>>)) = "") = own
       \* the mean over all draws, and their spread
       /\ LET x == [i \in 1..n |-> R[i].y]
              D == SetToSeq([1..n -> 1..n])
              v == [j \in DOMAIN D |-> NMean([i \in 1..n |-> x[D[j][i]]])]
          IN NMean(v) = NMean(x) /\ Var(v, 0) = NDiv(Var(x, 0), NInt(n))
L12 == LET n == Len(ks) R == WithInd(n).rows IN n = 0 \/ n > 3 \/
       \A m \in [1..n -> 0..2] : \A sp \in {<<>>, <<"g">>} :
         LET o == Replicate(n, sp, Times(R, m)) none == \A i \in 1..n : m[i] = 0 IN
         /\ none \/ RepsDiff(EvOf("Poisson", n, sp, <<o>>)) = ""
         /\ none \/ RepsDiff(EvOf("Poisson", n, sp, <<Spoil(o)>>)) # ""
         /\ sp = <<>> => ((~none /\ RepsDiff(EvOf("Bootstrap", n, sp, <<o>>)) = "") = (SumSeq([i \in 1..n |-> m[i]]) = n))

(* ---- C13: intervals --------------------------------------------------------------------------------*)
Confs == <<"1/2", "9/10", "95/100">>
L13 == LET n == Len(ks) xs == [i \in 1..n |-> RowOf(ks[i]).y] se == SampleSD(xs) IN
       /\ Reported("3", se, "", n) = <<"3", se>>
       /\ \A i \in 1..3 : LET r == Reported("3", se, Confs[i], n) IN
            IF n < 2 THEN r = <<"3", "nan", "nan">>
            ELSE /\ NLe(r[2], "3") /\ NLe("3", r[3]) /\ Eq(NAdd(r[2], r[3]), "6")
                 /\ i < 3 => LET w == Reported("3", se, Confs[i + 1], n) IN NLe(w[2], r[2]) /\ NLe(r[3], w[3])
                 /\ NLt("0", se) => LET w == Reported("3", se, Confs[i], n + 5) IN NLt(r[2], w[2])
                 /\ NClose("12706204736/1000000000", TQuantile("95/100", "1"), 8)

(* ---- C23: the order of rows ---------------------------------------------------------------------------*)
L23 == \A p \in Permutations(DOMAIN ks) : \A t \in Trees : \A s \in {<<>>, <<"g">>} :
         Eval(t, TableOf([i \in DOMAIN ks |-> AllRows[p[i]]]), s) = Eval(t, Tb, s)

(* ---- C21: optima ----------------------------------------------------------------------------------------*)
(* features: x, and z which depends on the row; the objective at the fit is not above the objective around it *)
Mod(kind, alpha, ratio, icept, pos) == [op |-> "Model", kind |-> kind, alpha |-> alpha, ratio |-> ratio, icept |-> icept, norm |-> FALSE, positive |-> pos]
L21 == LET n == Len(ks)
           X == [i \in 1..n |-> <<Xs[ks[i][3]], IF ks[i][1] = "a" THEN "1" ELSE "-1">>]
           y == [i \in 1..n |-> RowOf(ks[i]).y]
           pred(t, w, i) == IF t.icept THEN NAdd(w[1], DotP(Tail(w), X[i])) ELSE DotP(w, X[i])
           slopes(t, w) == IF t.icept THEN Tail(w) ELSE w
           obj(t, w) ==
             LET loss == NDiv(NSum([i \in 1..n |-> NSquare(NSub(y[i], pred(t, w, i)))]), NInt(2 * n))
                 l1 == CASE t.kind = "Lasso" -> t.alpha [] t.kind = "ElasticNet" -> NMul(t.alpha, t.ratio) [] OTHER -> "0"
                 l2 == CASE t.kind = "Ridge" -> NDiv(t.alpha, NInt(n)) [] t.kind = "ElasticNet" -> NMul(t.alpha, NSub("1", t.ratio)) [] OTHER -> "0"
                 s == slopes(t, w)
             IN NAdd(loss, NSum([j \in DOMAIN s |-> NAdd(NMul(l1, NAbs(s[j])), NMul(NDiv(l2, "2"), NSquare(s[j])))]))
       IN n = 0 \/
          \A kind \in {"LinearRegression", "Ridge", "Lasso", "ElasticNet"} : \A icept \in BOOLEAN : \A pos \in (IF kind = "Ridge" THEN {FALSE} ELSE BOOLEAN) :
            LET t == Mod(kind, "1/2", "1/4", icept, pos)
                w == LinearFit(t, X, y)
            IN (\E j \in DOMAIN w : w[j] = "any") \/
               /\ pos => \A j \in DOMAIN slopes(t, w) : NLe("0", slopes(t, w)[j])
               /\ \A j \in DOMAIN w : \A d \in {"1/16", "-1/16", "2", "-2"} :
                    LET w2 == [w EXCEPT ![j] = NAdd(@, d)] IN
                    (pos /\ \E i \in DOMAIN slopes(t, w2) : NLt(slopes(t, w2)[i], "0")) \/ NLe(obj(t, w), obj(t, w2))

Laws == CASE Prop = "C01" -> L01 [] Prop = "C02" -> L02 [] Prop = "C03" -> L03 [] Prop = "C04" -> L04 [] Prop = "C05" -> L05
          [] Prop = "C06" -> L06 [] Prop = "C07" -> L07 [] Prop = "C08" -> L08 [] Prop = "C09" -> L09 [] Prop = "C10" -> L10
          [] Prop = "C11" -> L11 [] Prop = "C12" -> L12 [] Prop = "C13" -> L13 [] Prop = "C21" -> L21 [] Prop = "C23" -> L23
=============================================================================
