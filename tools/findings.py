CT = dict(T, cat={"g": ["a", "b", "c"], "h": ["a", "b"]})
MHT = table(rows("g h s p w", """
a x 1 3 2
b x 1 4 1
a y 2 5 2
b y 2 1 3
a x 2 2 2
"""), {"g": "str", "h": "str", "s": "int"}, cat={"s": ["1", "2", "3"], "g": ["a", "b", "c"]})
RATIO = {"op": "Comp", "o": "/", "where": [], "kids": [leaf("Sum", "p"), leaf("Sum", "w")]}
fixed("C07", "09a8895", "MH reported unobserved combinations of categorical columns",
      [ev(MHT, {"op": "MH", "cond": ["g"], "strata": ["h"], "base": ["a"], "basekinds": ["str"], "incl": True,
                "where": [], "kids": [RATIO]}, ["s"])])
DOT = leaf("Dot", "x", var2="y", normalize=False, where=NONE)
DOTM = leaf("Dot", "x", var2="y", normalize=True, where=NONE)
fixed("C04", "dbc5457", "a list with Dot got the columns of the table when no row passes the filter and there is a split",
      [ev(T, {"op": "List", "where": [], "kids": [leaf("Sum", "x"), d]}, ["g"]) for d in (DOT, DOTM)])
Q = dict(weight="", interp="linear", single=False, q=["1/4", "1/2"])
fixed("C04", "5353581", "a list with a multi-quantile lost its columns when no row passes the filter and there is a split",
      [ev(T, {"op": "List", "where": [], "kids": [leaf("Sum", "x"), leaf("Quantile", "x", **dict(Q, where=NONE))]}, ["g"])])
fixed("C02", "7f08cd7", "weighted Quantile reported unobserved combinations of categorical columns",
      [ev(dict(T, cat={"g": ["a", "b", "c", "d"]}), leaf("Quantile", "x", **dict(Q, weight="w", single=s, q=q)), ["g"])
       for s, q in ((True, ["1/2"]), (False, ["1/4", "1/2"]))])
fixed("C02", "cc42dc7", "weighted Quantile raised or lost its columns when no row passes the filter",
      [ev(T, t, sp) for sp in ([], ["g"]) for s, q in ((True, ["1/2"]), (False, ["1/4", "1/2"]))
       for t in [leaf("Quantile", "x", **dict(Q, weight="w", single=s, q=q, where=NONE)),
                 {"op": "List", "where": [], "kids": [leaf("Sum", "x"), leaf("Quantile", "x", **dict(Q, weight="w", single=s, q=q, where=NONE))]}]])
NTH = leaf("Nth", "x", n=1, sort="p", asc=True, dropna=False)
fixed("C01", "3590d56", "Nth lost the slices with fewer than n + 1 rows",
      [ev(T, NTH, ["g"]), ev(T, dict(NTH, n=2), ["g", "h"]), ev(T, dict(NTH, n=9), ["s"])])
SC = lambda o, w=[]: {"op": "Comp", "o": o, "where": w, "kids": [leaf("Sum", "x"), leaf("Count", "x", distinct=False)]}
POS = [{"c": "num", "col": "x", "o": ">", "v": "2"}]
fixed("C14", "e74cab3", "any composite of Sum and Count on one variable shared the cache of Mean, whatever its operator and filter",
      [ev(T, {"op": "List", "where": [], "kids": [a, b]}, sp) for sp in ([], ["g"])
       for a, b in ((SC("*"), leaf("Mean", "x", weight="")), (leaf("Mean", "x", weight=""), SC("+")), (SC("-"), SC("*")),
                    (SC("/", POS), SC("/")), (SC("/", POS), leaf("Mean", "x", weight="")))])
fixed("C14", "5e68907", "modifying a result served from the cache modified the cached result (titles got their prefix repeatedly)",
      [{"kind": "members", "tb": T, "sp": sp,
        "tree": {"op": "List", "where": [], "kids": [{"op": "Distribution", "over": ["g"], "where": [], "kids": [leaf("Sum", "x")]}] * 3}}
       for sp in ([], ["s"])])
NX = table([{"g": "abcdefghij"[i], "p": v, "s": "1"} for i, v in enumerate("3 2 2 2 1".split())], {"g": "str", "s": "int"})
NY = table([{"g": "abcdefghij"[i], "p": "1", "s": "1"} for i in range(10)], {"g": "str", "s": "int"})
fixed("C09", "ea5ad82", "Nxx counted one group too many when the shares reach the requested fraction exactly",
      [ev(tb, {"op": "Nxx", "over": ["g"], "share": q, "where": [], "kids": [leaf("Sum", "p")]}, sp)
       for sp in ([], ["s"]) for tb in (NX, NY) for q in ("9/10", "1", "7/10")])
fixed("C04", "6385415", "dividing by an unsplit distinct count of zero raised ZeroDivisionError instead of giving a missing value",
      [ev(T, {"op": "Comp", "o": "/", "where": NONE, "kids": [leaf("Count", "x", distinct=True), leaf("Count", "y", distinct=True)]}, sp)
       for sp in ([], ["g"])])

found = lambda n: json.load(open(os.path.join(V, "tools", "found", n + ".json")))
fixed("C10", "bb009fd", "the precomputed jackknife counted or failed on slices that vanish when a unit is left out and a filter applies",
      found("jk_loo"))

UT = table(rows("u g s x z", """
a x p 5 3
a y q 8 6
b x p 1 2
b y p 0 4
c x q 3 3
c y p 7 1
d x q 2 8
d y q 5 5
d x p 4 2
a x q 6 1
"""), {"u": "str", "g": "str", "s": "str"})
JK = lambda k, **a: dict({"op": "Jackknife", "unit": "u", "conf": "", "where": [], "kids": [k], "opt": True}, **a)
fixed("C10", "d5e7dbc", "jackknife (and bootstrap) over a unit which the inner operation groups by, e.g. PrePostChange stratified by unit, raised ValueError on the default path",
      [ev(UT, JK(t), sp) for sp in ([], ["s"]) for t in (
          {"op": "HHI", "over": ["u"], "where": [], "kids": [leaf("Sum", "x")]},
          {"op": "CUPED", "cond": ["g"], "base": ["x"], "basekinds": ["str"], "strata": ["u"], "incl": False, "where": [],
           "kids": [leaf("Sum", "x"), leaf("Sum", "z")]})])

fixed("C11", "58ba4b0", "the preaggregated bootstrap counted a slice whose drawn units have no data passing the metric's filter as zero instead of missing",
      [s for s in found("preagg") if s["tree"]["op"] == "Bootstrap"])
fixed("C12", "58ba4b0", "the preaggregated Poisson bootstrap counted a slice whose drawn units have no data passing the metric's filter as zero instead of missing",
      [s for s in found("preagg") if s["tree"]["op"] == "Poisson"])
for p, op in (("C11", "Bootstrap"), ("C12", "Poisson")):
  fixed(p, "f31eb16", "bootstrapping by unit two sums whose columns differ in special characters only ('a b' and 'a_b') reported one for the other",
        [boot_names(op)])
fixed("C12", "31ba226", "Poisson bootstrap by unit of a change with fewer than seven units took time exponential in the number of replicates (never ended for 20)",
      [boot_slow()])

def q(tb, tree, sp, **how):
  return {"kind": "sql", "tb": tb, "tree": tree, "sp": sp, "how": dict({"titles": False, "table": "T"}, **how), "seed": 1}
L = lambda *k: {"op": "List", "where": [], "kids": list(k)}
S = lambda v, w=[]: leaf("Sum", v, where=w)
M = lambda v, **k: leaf("Mean", v, weight="", **k)
DI = lambda o, k: {"op": "Distribution", "over": o, "where": [], "kids": [k]}
XP = [{"c": "num", "col": "x", "o": ">", "v": "1"}]
WQ = table(rows("g x w", """
a 1 1
a 2 1
a 4 1
b 3 1
b 7 2
b 9 1
"""), {"g": "str"})
QT = lambda qs, w="": leaf("Quantile", "x", weight=w, interp="linear", single=len(qs) == 1, q=qs)
fixed("C18", "e125b2d", "the weighted quantile was doubled when it falls on the weight of an inner row and zero when on the last one",
      [q(WQ, QT([a], "w"), sp) for a in ("1/2", "5/6", "1/6") for sp in ([], ["g"])])
QQ = table([{"g": "a", "x": str(i * i)} for i in range(101)], {"g": "str"})
fixed("C18", "98c0bb6", "quantiles were truncated, e.g. 0.29 gave the 28th percentile",
      [q(QQ, QT(a), sp) for a in (["29/100"], ["29/100", "57/100"]) for sp in ([], ["g"])])
D2 = table(rows("g h s x y", """
a a 1 1 2
a b 1 2 3
b a 1 3 1
b b 2 5 3
a b 2 4 4
"""), {"s": "int", "g": "str", "h": "str"})
CH = lambda k, o="Percent": {"op": o, "cond": ["g"], "base": ["a"], "basekinds": ["str"], "incl": False, "where": [], "kids": [k]}
fixed("C18", "430b6e0", "a list of an operation and metrics with the same inner columns referred to a column by the title it had before merging",
      found("sql_430b6e0"))
fixed("C18", "e22660b", "a column found under a title with a suffix was referred to without the suffix",
      [q(D2, L(CH(L(S("x"), S("x", XP))), CH(S("x", XP), "Absolute")), sp) for sp in ([], ["s"])] +
      [q(D2, CH(L(S("x"), S("x", XP))), sp) for sp in ([], ["s"])])
CU = lambda order, asc=True: {"op": "Cumulative", "over": ["g"], "order": order, "orderkind": "str", "asc": asc, "byval": False, "where": [],
                              "kids": [S("x")]}
fixed("C18", "218e427", "CumulativeDistribution kept the values which order does not list",
      [q(T, CU(o), sp) for o in (["b", "a"], ["c"]) for sp in ([], ["h"])])
fixed("C18", "1c952a2", "Distribution of an operation divided the labels the operation adds",
      [q(D2, DI(["h"], CH(S("x"), "Absolute")), sp) for sp in ([], ["s"])] + [q(D2, DI(["h"], DI(["g"], S("x"))), [])])
fixed("C18", "34cedd9", "the jackknife lost the replicates of units which do not occur in a group",
      found("sql_34cedd9"))
EZ = table(rows("g s x", """
a 1 1
b 1 0
c 1 3
"""), {"g": "str", "s": "int"})
fixed("C18", "5e340d7", "Entropy failed when a share is zero",
      [q(EZ, {"op": "Entropy", "over": ["g"], "where": [], "kids": [S("x")]}, sp) for sp in ([], ["s"])])
fixed("C18", "c578018", "a list of TopK or Nxx of different things referred to a column by the title it had before merging",
      [q(D2, L(*[dict({"op": o, "over": ["g"], "where": [], "kids": [k]}, **a) for k in (S("x"), S("x", XP))]), sp)
       for o, a in (("TopK", {"k": 1}), ("Nxx", {"share": "1/2"})) for sp in ([], ["s"])])
fixed("C18", "a30d86b", "the Poisson bootstrap repeated the weights of units whose labels run into the number of the replicate, e.g. unit 1 replicate 12 and unit 11 replicate 2",
      found("sqldraws"))
known("C18", "a list which computes the same thing twice has one of the columns only, e.g. MetricList([Mean('x'), Mean('x')]) or two sums of one column under two names",
      [q(D2, L(M("x"), M("x")), sp) for sp in ([], ["g"])] + [q(D2, L(S("x"), dict(S("x"), name="again")), ["g"])])

JK = lambda k, **a: dict({"op": "Jackknife", "unit": "u", "conf": "", "where": [], "opt": True, "kids": [k]}, **a)
UB = table(rows("u g x", """
1 a 3
1 a 2
2 b 4
3 b 7
2 b 1
"""), {"u": "int", "g": "str"})
fixed("C19", "e40187a", "building a query took the WITH clause away from the Sql object passed as its table, so the second query of a jackknife failed",
      [q(UB, JK(S("x")), sp, mode="mixed", table="with") for sp in ([], ["g"])])
fixed("C19", "b6f724e", "PoissonBootstrap by unit repeated the same weights in every batch of replicates", found("mixed_draws"))
fixed("C19", "f239c71", "Bootstrap resampled anew for every leaf of a replicate, e.g. the numerator and the denominator of a ratio", found("mixed_boot"))
known("C19", "the jackknife raises when a unit is the only one with the baseline of a change (in memory its replicate is left out)",
      [q(UB, JK(CH(S("x"), o)), [], mode="mixed", strict=True) for o in ("Percent", "Absolute")])
U2 = table([{"u": str(i // 2), "g": "ab"[i // 2 % 2], "x": str(i * i % 7 + 1), "x2": str(2 * (i * i % 7 + 1)), "y": str(i * 3 % 5 + 1), "z": str(i * 5 % 11 + 1)}
            for i in range(24)], {"u": "int", "g": "str"})
PP = lambda v: {"op": "PrePost", "cond": ["g"], "base": ["a"], "basekinds": ["str"], "incl": False, "strata": ["u"], "where": [],
                "kids": [S(v), L(S("y"), S("z"))]}
known("C19", "what has to be computed by several queries (e.g. the difference of two PrePostChange with two covariates) is resampled anew by each of them under Bootstrap",
      [{"kind": "same", "tb": U2, "sp": [], "titles": False, "asks": [
          {"tb": U2, "sp": [], "tree": t, "how": h} for h in ({"seed": 1}, {"seed": 1, "sql": m})]}
       for t in [{"op": "Bootstrap", "unit": "u", "n": 20, "conf": "", "where": [], "opt": True,
                  "kids": [{"op": "Comp", "o": "-", "where": [], "kids": [PP("x"), PP("x2")]}]}] for m in ("", "mixed")])

for c, what in (("f76d172", "a metric used before under a cache_key mixed up the splits and filters of a later call with a cache_key"),
                ("4360a57", "the result of a metric with confidence could not be read from a cache filled by another object"),
                ("daee840", "cache keys with equal hashes, like -1 and -2, shared results"),
                ("676946e", "resamples of different data or units shared results in the cache"),
                ("267de1f", "a custom Metric got the cached result of another instance which had been at the same address")):
  fixed("C14", c, what, found("ses_" + c))

ADJ = table([{"g": "ab"[i % 2], "s": "pq"[i // 2 % 2], "d": "-+"[i // 4 % 2], "u": str(i * 7 % 5), "x": str(i * i % 7), "w": str(1 + i * 5 % 4),
              "y": str(i * 3 % 11)} for i in range(48)], {"u": "int", "g": "str", "s": "str", "d": "str"})
AT = lambda v: [{"c": "lab", "col": "d", "o": "==", "v": v, "int": False}]
AD = lambda op, y, z: {"op": op, "cond": ["g"], "base": ["a"], "basekinds": ["str"], "incl": False, "strata": ["u"], "where": [], "kids": [y, z]}
fixed("C08", "755b3a3", "PrePostChange and CUPED failed when the child and a covariate have the same name",
      [ev(ADJ, AD(op, S("x", AT("+")), S("x", AT("-"))), sp) for op in ("PrePost", "CUPED") for sp in ([], ["s"])])
fixed("C07", "87c553a", "MH mixed up the numerator and the denominator when they have the same name",
      [ev(ADJ, {"op": "MH", "cond": ["g"], "strata": ["u"], "base": ["a"], "basekinds": ["str"], "incl": False, "where": [],
                "kids": [{"op": "Comp", "o": "/", "where": [], "kids": [S("w", AT("+")), S("w")]}]}, sp) for sp in ([], ["s"])])
fixed("C19", "7293c2e", "PrePostChange and CUPED of several outcomes took all but the first for covariates",
      [q(ADJ, AD(op, L(S("x"), M("x")), S("y")), sp, mode="mixed") for op in ("PrePost", "CUPED") for sp in ([], ["s"])])
fixed("C02", "2f7d56b", "weighted Quantile failed when the values are the weights",
      [ev(ADJ, leaf("Quantile", "w", **dict(Q, weight="w", single=len(a) == 1, q=a)), sp) for a in (["1/2"], ["1/4", "1/2"]) for sp in ([], ["s"])])
T2 = dict(T, rows=T["rows"][: max(4, len(T["rows"]) - 2)])
fixed("C14", "9ad86a1", "falsy cache keys like 0 and '' stood for no key and shared results",
      [{"kind": "session", "tables": [T, T2], "defs": [S("x")],
        "steps": [dict({"m": 0, "t": t, "sp": [], "tree": S("x"), "drawn": False, "cache": "C"}, **k)
                  for t, k in ((0, {"key": a}), (1, b), (0, {"key": a}))]}
       for a, b in ((0, {"key": ""}), ("", {"key": 0}), (0, {}), ("", {}))])
fixed("C17", "8d2ef12", "the long form of a MetricList with renamed columns failed when there was nothing to report, and when titles repeated",
      [{"kind": "formats", "cls": "forms:List", "tb": T, "sp": sp, "w": 1, "raw": False, "seed": 1,
        "tree": dict(L(S("x", [{"c": "num", "col": "x", "o": ">", "v": "1000"}]), S("x", f)), rename=["a", "b"])}
       for sp in ([], ["g"], ["g", "h"])
       for f in ([], [{"c": "num", "col": "x", "o": ">", "v": "1000"}])])
RW = {"op": "Raw", "over": ["g"], "where": [], "kids": [S("x")]}
fixed("C16", "ed6b0e8", "a custom Metric and its copy were equal but had different hashes",
      [{"kind": "equal", "cls": "equal:Raw", "trees": [RW, RW, dict(RW, kids=[S("y")])], "tables": [T],
        "cases": [{"t": 0, "sp": []}]}])
FT = table([{"u": "u%d" % (i // 2), "s": "ab"[i % 2], "x": str(i * i % 7), "y": str(i * 3 % 5), "z": str(-(i * 3 % 5) + i % 2), "b": "-1" if i // 2 % 3 else "1"}
            for i in range(24)], {"u": "str", "s": "str"})
def fit(kind, y, *x, **a):
  return dict({"op": "Model", "kind": kind, "by": ["u"], "alpha": "1/10", "ratio": "1/2", "icept": True, "norm": False, "positive": False, "where": [],
               "aslist": True, "kids": [L(y, L(*x))]}, **a)
fixed("C16", "37fcb68", "models which differ in an argument of the underlying model, like positive, were equal and shared results",
      [{"kind": "equal", "cls": "equal:Model", "trees": [fit(k, S("y"), S("x"), S("z")), fit(k, S("y"), S("x"), S("z"), **a)], "tables": [FT],
        "cases": [{"t": 0, "sp": []}]} for k, a in (("Lasso", {"positive": True}), ("ElasticNet", {"positive": True}),
                                                    ("Lasso", {"extra": {"max_iter": 1}}), ("Ridge", {"extra": {"solver": "lsqr", "max_iter": 1}}))])
fixed("C19", "f9f8a6b", "magic mode of Lasso and ElasticNet ignored positive",
      [{"kind": "model", "cls": "model:" + k, "tb": FT, "sp": sp, "how": {"mode": "magic"},
        "tree": fit(k, S("y"), S("x"), S("z"), positive=True)} for k in ("Lasso", "ElasticNet") for sp in ([], ["s"])])
LX = {"op": "Comp", "o": "*", "where": [], "kids": [M("x"), {"op": "Const", "v": "1/8"}]}
fixed("C19", "9ff8aad", "magic mode of LogisticRegression only worked for the classes 0 and 1",
      [{"kind": "model", "cls": "model:Logistic", "tb": FT, "sp": sp, "how": {"mode": "magic"},
        "tree": fit("Logistic", {"op": "Max", "var": "b", "where": []}, LX, penalty="l2", c="1", tol=1e-6, iter=400)} for sp in ([], ["s"])])
fixed("C10", "55276e8", "the jackknife of a model failed when the model could not be fitted to the data of a single unit", found("jk_model"))
fixed("C20", "cad896f", "a condition with an OR that has no spaces around lost its parentheses when put together with others", found("flt_or"))
fixed("C20", "4baeae6", "== inside a string literal of a condition was changed to =", found("flt_eq"))
fixed("C20", "1d03eed", "subqueries were mixed up when a WITH clause was taken into one with the same names", found("sub_nest"))
fixed("C20", "ced80ea", "a condition on the result of a query was applied to what that query asks from", found("sub_last"))
fixed("C19", "ced80ea", "the filter of a metric was applied to what the given query asks from, not to its result", found("mix_last"))
fixed("C22", "98514f0", "controls which were to be hidden were shown when their values were inferred", found("disp_98514f0"))
fixed("C22", "c7c54e6", "inconsistent control values were shown as the control's, and inferring failed when none was valid", found("disp_c7c54e6"))
fixed("C22", "b83e1d7", "the caller's sort_by and metric_formats were modified", found("disp_b83e1d7"))
fixed("C22", "a769121", "rows without a description were not shown", found("disp_a769121"))
fixed("C22", "db97e24", "there was an additional column when sorted in an order given for the only dimension", found("disp_db97e24"))
fixed("C22", "011ecd9", "ids of controls were N/A or left out in rows where the experiment lacks a metric", found("disp_011ecd9"))
fixed("C22", "755b0a1", "an experiment whose id is 0 was not told in the table", found("disp_755b0a1"))
fixed("C22", "f0b7a7b", "display failed for results without a control when asked to show values", found("disp_base"))
fixed("C18", "237ab13", "a list of Nxx and Entropy without a split became one query of aggregations and window functions", found("near_nxx"))
fixed("C18", "3152307", "MH of a list of ratios with a filter that is not the filter of everything asked for columns that do not exist", found("jk_mhwhere"))
ZT = table([{"u": u, "w": w, "x": x} for u, w, x in (("u2", "9", "7"), ("u3", "4", "7"), ("u4", "4", "5"), ("u5", "6", "7"))], {"u": "str"})
MX = {"op": "Max", "var": "x", "where": []}
fixed("C21", "bc75e36", "magic mode of Lasso and ElasticNet gave complex numbers with numpy 2.5",
      [{"kind": "model", "cls": "model:" + k, "tb": FT, "sp": sp, "how": {"mode": "magic"},
        "tree": fit(k, S("y"), S("x"), S("z"))} for k in ("Lasso", "ElasticNet") for sp in ([], ["s"])])
fixed("C21", "a2cd61f", "magic mode of Lasso, ElasticNet and LogisticRegression with l1 took a coefficient which the momentum kept at 0 for converged",
      [{"kind": "model", "cls": "model:ElasticNet", "tb": ZT, "sp": [], "how": {"mode": "magic"},
        "tree": fit("ElasticNet", S("w"), MX, alpha="1", norm=True, positive=True)}])
fixed("C21", "2375e2f", "magic mode of models with an l1 penalty failed when all the features of a slice are 0", found("fit_zero"))
fixed("C12", "a125326", "preaggregated data of bootstraps had the same name for columns like a and _a", found("like_names"))
fixed("C10", "1936f54", "the optimized jackknife failed on a user-defined metric computed slice by slice with the help of another one", found("slow"))
