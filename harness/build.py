"""Renders the JSON trees of gen.py into real meterstick objects."""
from fractions import Fraction
import zlib
import numpy as np
import pandas as pd
from env import import_library

ms = import_library()
from meterstick import metrics, operations, diversity, models, utils  # noqa: E402


def num(s):
  if s == "nan":
    return float("nan")
  f = Fraction(s)
  return float(f)


def const(s):
  f = Fraction(s)
  return int(f) if f.denominator == 1 else float(f)


def label(s, kind):
  return int(s) if kind == "int" else s


def frame(tb, index=None):
  """The DataFrame of a table."""
  rows = tb["rows"]
  data = {}
  for c in rows[0] if rows else tb["cols"]:
    if c in tb["ord"]:
      data[c] = [label(r[c], tb["kinds"][c]) for r in rows]
      if c in tb.get("cat", ()):
        cats = [label(a, tb["kinds"][c]) for a in tb["cat"][c]]
        data[c] = pd.Categorical(data[c], categories=cats)
    else:
      v = [num(r[c]) for r in rows]
      if tb.get("intnum") and not any(a != a for a in v):
        v = [int(a) if a == int(a) else a for a in v]
      data[c] = v
  return pd.DataFrame(data, index=index)


SQL = False    # filters have to be readable by a database, too


def where_str(c):
  k = c["c"]
  if k in ("and", "or"):
    a, b = where_str(c["a"]), where_str(c["b"])
    if not SQL and zlib.crc32((a + b).encode()) % 3 == 0:      # pandas has two ways to write them
      k = {"and": "&", "or": "|"}[k]
    return "(%s) %s (%s)" % (a, k, b)
  if k == "not":
    return "not (%s)" % where_str(c["a"])
  if k == "num":
    return "%s %s %s" % (c["col"], c["o"], const(c["v"]))
  q = (lambda v: v) if c["int"] else (lambda v: '"%s"' % v)
  if k == "lab":
    return "%s %s %s" % (c["col"], c["o"], q(c["v"]))
  if k == "in":
    return "%s in (%s)" % (c["col"], ", ".join(q(v) for v in c["v"]) + ("," if len(c["v"]) == 1 and not SQL else ""))
  raise ValueError(c)


def where_arg(w):
  """None, a string, or a list of strings - whatever a user would pass."""
  if not w:
    return None
  if len(w) == 1:
    return where_str(w[0])
  return [where_str(a) for a in w]


ARITH = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
         "/": lambda a, b: a / b, "**": lambda a, b: a ** b}


def one(l):
  """A single column name as a string, several as a list."""
  return l[0] if len(l) == 1 else list(l)


def base_key(t):
  b = tuple(label(v, k) for v, k in zip(t["base"], t["basekinds"]))
  return b[0] if len(b) == 1 else b


class Raw(operations.Operation):
  """A user-defined operation: the values of the inner metric, split further."""

  def __init__(self, over=(), child=None, **kw):
    super().__init__(child, "{}", list(over), **kw)

  def compute_on_children(self, children, split_by):
    del split_by
    return children


class Slow(metrics.Metric):
  """A user-defined metric computed slice by slice, with the help of another one."""

  def __init__(self, child, where=None):
    super().__init__("slow " + child.name, child, where)

  def compute_through(self, df, split_by=None):
    some = df.query(self.where) if self.where else df
    if split_by and some.empty:         # which user-defined metrics need not care about
      return some.groupby(split_by, observed=True).size().astype(float)
    return super().compute_through(df, split_by)

  def compute(self, df):
    return self.compute_util_metric_on(self.children[0], df, [], return_dataframe=False)


LOG = None     # replicates recorded by the resampling classes below
_CLASSES = {}


def recording(base):
  """base, with the results on its resamples recorded."""
  if base not in _CLASSES:
    class Recording(base):
      def compute_on_samples(self, keyed_samples, split_by=None):
        res = super().compute_on_samples(keyed_samples, split_by)
        LOG.append(list(res))
        return res

      def compute_children_sql(self, *args, **kwargs):
        res = super().compute_children_sql(*args, **kwargs)
        # one melted column per replicate
        LOG.append([r.iloc[:, [i]] for r in res for i in range(r.shape[1])])
        return res
    Recording.__name__ = base.__name__
    _CLASSES[base] = Recording
  return _CLASSES[base]


class Boom(Exception):
  """Raised inside a computation, where a test asked for it."""


TRIP = None    # how many more evaluations of Brittle succeed


class Brittle(metrics.Metric):
  """A user-defined sum which can be made to fail."""

  def __init__(self, var, name=None, where=None):
    self.var = var
    super().__init__(name or "sum(%s)" % var, where=where)

  def compute_slices(self, df, split_by=None):
    if split_by and df.empty:           # which user-defined metrics need not care about
      return df.groupby(split_by, observed=True)[self.var].sum()
    return super().compute_slices(df, split_by)

  def compute(self, df):
    global TRIP
    if TRIP is not None:
      TRIP -= 1
      if TRIP == 0:
        raise Boom("asked to fail")
    return df[self.var].sum()


REFS = []      # objects which trees refer to


def model(t, name, w):
  from meterstick import models
  y, x = t["kids"][0]["kids"]
  y = build(y)
  x = [build(k) for k in x["kids"]] if x["op"] == "List" and not x["where"] and t.get("aslist", True) else build(x)
  by = one(t["by"])
  kw = dict(fit_intercept=t["icept"], where=w, name=name)
  a = float(Fraction(t.get("alpha", "1")))
  r = float(Fraction(t.get("ratio", "1/2")))
  extra = t.get("extra", {})
  if t["kind"] == "OLS":
    return models.LinearRegression(y, x, by, normalize=t["norm"], **kw)
  if t["kind"] == "Ridge":
    return models.Ridge(y, x, by, a, normalize=t["norm"], **kw, **extra)
  exact = {"tol": 1e-14, "max_iter": 200000}
  if t["kind"] == "Lasso":
    return models.Lasso(y, x, by, a, normalize=t["norm"], positive=t["positive"], **{**exact, **extra}, **kw)
  if t["kind"] == "ElasticNet":
    return models.ElasticNet(y, x, by, a, r, normalize=t["norm"], positive=t["positive"], **{**exact, **extra}, **kw)
  pen = t["penalty"] or None
  solver = "lbfgs" if pen in (None, "l2") else "saga"
  return models.LogisticRegression(y, x, by, penalty=pen, C=float(Fraction(t["c"])), l1_ratio=r if pen == "elasticnet" else None,
                                   solver=solver, **{"tol": t.get("tol", 1e-10), "max_iter": t.get("iter", 20000), **extra}, **kw)


def _build(t, conf=None):
  op = t["op"]
  if op == "Ref":
    return REFS[t["i"]]
  if t.get("brittle"):
    return Brittle(t["var"], t.get("name"), where_arg(t.get("where")))
  w = where_arg(t.get("where"))
  name = t.get("name")
  if op == "Const":
    return const(t["v"])
  if op == "Sum":
    return metrics.Sum(t["var"], name, w)
  if op == "Count":
    return metrics.Count(t["var"], name, w, distinct=t["distinct"])
  if op == "Mean":
    return metrics.Mean(t["var"], t["weight"] or None, name, w)
  if op == "Max":
    return metrics.Max(t["var"], name, w)
  if op == "Min":
    return metrics.Min(t["var"], name, w)
  if op == "Dot":
    return metrics.Dot(t["var"], t["var2"], t["normalize"], name, w)
  if op == "Variance":
    return metrics.Variance(t["var"], t["unbiased"], t["weight"] or None, name, w)
  if op == "StandardDeviation":
    return metrics.StandardDeviation(t["var"], t["unbiased"], t["weight"] or None, name, w)
  if op == "CV":
    return metrics.CV(t["var"], t["unbiased"], name, w)
  if op == "Cov":
    return metrics.Cov(t["var"], t["var2"], t["bias"], None if t["ddof"] < 0 else t["ddof"],
                       t["weight"] or None, t["fweight"] or None, name, w)
  if op == "Correlation":
    return metrics.Correlation(t["var"], t["var2"], t["weight"] or None, name, t["method"], w)
  if op == "Quantile":
    q = [float(Fraction(a)) for a in t["q"]]
    return metrics.Quantile(t["var"], q[0] if t["single"] else q, t["weight"] or None, t["interp"], name, w)
  if op == "Nth":
    return metrics.Nth(t["var"], t["n"], t["sort"], t["asc"], t["dropna"], name, w)
  kids = [build(k) for k in t["kids"]]
  if op == "List":
    return metrics.MetricList(kids, where=w, rename_columns=t.get("rename"))
  if op == "Comp":
    if t.get("ratio"):
      return metrics.Ratio(t["kids"][0]["var"], t["kids"][1]["var"], name, w)
    m = ARITH[t["o"]](kids[0], kids[1])
    if w:
      m.add_where(w)
    if name:
      m.set_name(name)
    return m
  kw = {"where": w}
  if op == "Distribution":
    return operations.Distribution(one(t["over"]), kids[0], **kw)
  if op == "Cumulative":
    order = [label(v, t["orderkind"]) for v in t["order"]] or None
    return operations.CumulativeDistribution(one(t["over"]), kids[0], order, t["asc"], t["byval"], **kw)
  if op == "Percent":
    return operations.PercentChange(one(t["cond"]), base_key(t), kids[0], t["incl"], **kw)
  if op == "Absolute":
    return operations.AbsoluteChange(one(t["cond"]), base_key(t), kids[0], t["incl"], **kw)
  if op == "MH":
    return operations.MH(one(t["cond"]), base_key(t), one(t["strata"]), kids[0], t["incl"], **kw)
  if op in ("PrePost", "CUPED"):
    cls = operations.PrePostChange if op == "PrePost" else operations.CUPED
    cov = t["kids"][1]
    c = kids[1] if cov["op"] != "List" or cov["where"] or len(cov["kids"]) > 2 else [build(k) for k in cov["kids"]]
    return cls(one(t["cond"]), base_key(t), kids[0], c, one(t["strata"]), t["incl"], **kw)
  if op == "Model":
    return model(t, name, w)
  if op == "Jackknife":
    c = t.get("conf")
    return operations.Jackknife(t["unit"], kids[0], float(Fraction(c)) if c else None,
                                enable_optimization=t.get("opt", True), **kw)
  if op in ("Bootstrap", "Poisson"):
    cls = (operations.Bootstrap, operations.PoissonBootstrap)[op == "Poisson"]
    if LOG is not None:
      cls = recording(cls)
    c = t.get("conf")
    return cls(t["unit"] or None, kids[0], t["n"], float(Fraction(c)) if c else None,
               enable_optimization=t.get("opt", True), **kw)
  if op == "Slow":
    return Slow(kids[0], w)
  if op == "Raw":
    return Raw(t["over"], kids[0])
  if op in ("HHI", "Entropy", "TopK", "Nxx"):
    if op == "HHI":
      m = diversity.HHI(one(t["over"]), kids[0])
    elif op == "Entropy":
      m = diversity.Entropy(one(t["over"]), kids[0])
    elif op == "TopK":
      m = diversity.TopK(one(t["over"]), t["k"], kids[0])
    else:
      m = diversity.Nxx(one(t["over"]), float(Fraction(t["share"])), kids[0])
    if w:
      m.add_where(w)
    return m
  raise ValueError(op)


def build(t):
  m = _build(t)
  return m


# ---- recording results ------------------------------------------------------

def rational(v):
  """The exact value of an observed number as a string of module Num."""
  if v is None or v is pd.NA:
    return "nan"
  if isinstance(v, (bool, np.bool_)):
    return str(int(v))
  if isinstance(v, (int, np.integer)):
    return str(int(v))
  if isinstance(v, (complex, np.complexfloating)):
    return "not-a-number:" + repr(v)[:40]
  try:
    v = float(v)
  except (TypeError, ValueError):
    return "not-a-number:" + repr(v)[:40]
  if v != v:
    return "nan"
  if v in (float("inf"), float("-inf")):
    return "inf" if v > 0 else "-inf"
  f = Fraction(v)
  return str(f.numerator) if f.denominator == 1 else "%d/%d" % (f.numerator, f.denominator)


def lab(v):
  if v is None or v != v:
    return "nan"
  if isinstance(v, (float, np.floating)) and v == int(v):
    v = int(v)
  return str(v)


def column_name(c):
  return "|".join(str(a) for a in c) if isinstance(c, tuple) else str(c)


def record(res):
  """A DataFrame returned by the library as a frame of the specification."""
  if isinstance(res, pd.Series):
    res = res.to_frame()
  elif not isinstance(res, pd.DataFrame):
    res = pd.DataFrame([[res]], columns=["value"])
  names = list(res.index.names)
  rows = []
  if names == [None]:
    idx = []
    keys = [[] for _ in range(len(res))]
  else:
    idx = [str(n) for n in names]
    keys = [[lab(v) for v in (k if isinstance(k, tuple) else (k,))] for k in res.index]
  vals = res.values
  for i, k in enumerate(keys):
    rows.append({"k": k, "v": [rational(v) for v in vals[i]]})
  return {"idx": idx, "n": int(res.shape[1]), "rows": rows, "err": "",
          "cols": [column_name(c) for c in res.columns]}


def error(e):
  return {"idx": [], "n": 0, "rows": [], "err": "%s: %s" % (type(e).__name__, str(e)[:300]), "cols": []}
