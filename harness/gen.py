"""Random tables, filters and metric trees, as plain JSON values.

The same JSON is rendered into real meterstick objects (build.py) and read by
the TLA+ specification (spec/*.tla); it is the interface between the two.
"""
import json
import random

STR = ["a", "b", "c", "d", "e"]
INTS = ["1", "2", "3", "10", "20"]     # as labels; "10" > "2" numerically
NEGS = ["-2", "-1", "0", "1", "20"]    # hash(-2) == hash(-1)


class Gen(random.Random):
  """A random generator with helpers for scenarios."""

  def chance(self, p):
    return self.random() < p

  # ---- tables -------------------------------------------------------------
  def table(self, nrows=None, nan=0.0, dims=("g", "h", "s", "r"), units=True, pos=False,
            nunits=None, card=None, dense=False, cats=False):
    """A table: label columns dims, unit column u, numbers x, y, w (>0), p (>0), t (unique)."""
    n = nrows or self.randint(6, 16)
    cols = {}
    labels = {}
    kinds = {}
    for d in dims:
      k = card or self.randint(2, 4)
      kinds[d] = self.choice(["str", "str", "int"])
      pool = STR if kinds[d] == "str" else NEGS if self.chance(0.3) else INTS
      labels[d] = pool[:k]
      weights = [1] * k if dense else [self.choice([1, 1, 3]) for _ in range(k)]
      cols[d] = self.choices(labels[d], weights, k=n)
    if units:
      k = nunits or self.randint(2, 6)
      kinds["u"] = self.choice(["str", "int"])
      labels["u"] = ["u%d" % i for i in range(1, k + 1)] if kinds["u"] == "str" else [str(i) for i in range(1, k + 1)]
      if kinds["u"] == "int" and self.chance(0.3):
        labels["u"] = [str(i) for i in range(-2, k - 2)]
      cols["u"] = self.choices(labels["u"], k=n)
    def num(lo, hi):
      v = [str(self.randint(lo, hi)) for _ in range(n)]
      return ["nan" if self.chance(nan) else a for a in v]
    cols["x"] = num(1 if pos else -4, 9)
    cols["y"] = num(1 if pos else -3, 7)
    cols["z"] = num(0, 5)
    cols["w"] = [str(self.randint(1, 4)) for _ in range(n)]
    cols["p"] = [str(self.randint(1, 9)) for _ in range(n)]
    t = list(range(1, n + 1))
    self.shuffle(t)
    cols["t"] = [str(a) for a in t]
    rows = [{c: cols[c][i] for c in cols} for i in range(n)]
    ord_ = {}
    for d in labels:
      seen = set(cols[d])
      ord_[d] = [a for a in labels[d] if a in seen]
    cat = {}
    if cats:
      for d in dims:
        if self.chance(0.7):
          cat[d] = labels[d] if self.chance(0.6) else ord_[d]
    return {"rows": rows, "ord": ord_, "kinds": kinds, "cat": cat,
            "intnum": self.chance(0.5) and nan == 0, "types": {}}

  # ---- filters --------------------------------------------------------------
  def atom(self, tb, cols=None):
    num = ["x", "y", "z", "w", "p"]
    lab = [c for c in tb["ord"] if c != "u"]
    c = self.choice(cols) if cols else self.choice(num + lab)
    if c in tb["ord"]:
      vals = tb["ord"][c]
      if self.chance(0.25) and len(vals) > 1:
        k = self.randint(1, len(vals))
        return {"c": "in", "col": c, "v": self.sample(vals, k), "int": tb["kinds"][c] == "int"}
      return {"c": "lab", "col": c, "o": self.choice(["==", "!=", "!="]), "v": self.choice(vals),
              "int": tb["kinds"][c] == "int"}
    return {"c": "num", "col": c, "o": self.choice(["<", "<=", ">", ">=", "==", "!="] if not tb.get("hasnan") else ["<", "<=", ">", ">="]),
            "v": str(self.randint(-1, 6))}

  def cond(self, tb, cols=None, depth=1):
    if depth and self.chance(0.35):
      k = self.choice(["and", "or", "or", "not"])
      a = self.cond(tb, cols, depth - 1)
      if k == "not":
        return {"c": "not", "a": a}
      return {"c": k, "a": a, "b": self.cond(tb, cols, depth - 1)}
    return self.atom(tb, cols)

  def where(self, tb, p=0.3, cols=None):
    if not self.chance(p):
      return []
    return [self.cond(tb, cols) for _ in range(1 if self.chance(0.75) else 2)]

  # ---- leaves -----------------------------------------------------------------
  def leaf(self, tb=None, kind=None, wp=0.0, ops=None):
    """A base aggregate without random row-order dependence."""
    op = kind or self.choice(ops or ["Sum", "Sum", "Sum", "Count", "Mean", "Mean", "Max", "Min",
                                     "Dot", "Variance", "StandardDeviation"])
    v = self.choice(["x", "y", "z", "p"])
    t = {"op": op, "var": v, "where": self.where(tb, wp) if tb else []}
    w = lambda pr: self.choice(["w", "p"]) if self.chance(pr) else ""
    if op == "Count":
      t["distinct"] = self.chance(0.3)
    elif op == "Mean":
      t["weight"] = w(0.3)
    elif op == "Dot":
      t["var2"] = self.choice(["x", "y", "z", "w"])
      t["normalize"] = self.chance(0.4)
    elif op in ("Variance", "StandardDeviation"):
      t["weight"] = w(0.3)
      t["unbiased"] = self.chance(0.6)
    elif op == "CV":
      t["var"] = "p"
      t["unbiased"] = self.chance(0.6)
    elif op == "Cov":
      t["var2"] = self.choice(["x", "y", "z", "w"])
      t["weight"] = w(0.3)
      t["fweight"] = w(0.3)
      t["bias"] = self.chance(0.4)
      t["ddof"] = self.choice([-1, -1, 0, 1, 2])
    elif op == "Correlation":
      t["var"], t["var2"] = self.choice([("x", "y"), ("y", "x"), ("x", "w"), ("z", "p")])
      t["weight"] = w(0.25)
      t["method"] = "pearson" if t["weight"] else self.choice(["pearson", "spearman", "kendall"])
    elif op == "Quantile":
      t["weight"] = w(0.3)
      if t["weight"] == v and not self.chance(0.3):
        t["weight"] = "w"
      t["interp"] = "linear" if t["weight"] else self.choice(["linear", "linear", "lower", "higher", "midpoint", "nearest"])
      qs = ["0", "1/4", "1/2", "3/4", "1"]
      if t["interp"] == "linear":
        qs += ["1/8", "5/8"]
      if self.chance(0.5):
        t["q"] = [self.choice(qs)]
        t["single"] = True
      else:
        t["q"] = sorted(self.sample(qs, self.randint(2, 3)), key=lambda s: eval(s))
        t["single"] = False
    elif op == "Nth":
      t["n"] = self.randint(0, 3)
      t["asc"] = self.chance(0.5)
      t["dropna"] = self.chance(0.3)
      t["sort"] = "t"
    return t

  # ---- inner nodes --------------------------------------------------------
  def base(self, tb, cond):
    """A baseline key that occurs in the table."""
    r = self.choice(tb["rows"])
    return [r[c] for c in cond]

  def over(self, free, k=None):
    k = k or (2 if len(free) > 1 and self.chance(0.25) else 1)
    return self.sample(free, min(k, len(free)))

  def single(self, tb, depth, wp, free=(), denom_ok=True):
    """A single-column tree without extra index."""
    r = self.random()
    if depth == 0 or r < 0.4:
      ops = ["Sum", "Sum", "Count", "Mean", "Max", "Min", "Dot", "Mean", "StandardDeviation", "Variance"]
      return self.leaf(tb, wp=wp, ops=ops)
    if r < 0.85 or not free:
      return self.comp(tb, depth, wp)
    op = self.choice(["HHI", "TopK", "Entropy", "Nxx"])
    return self.diversity(tb, op, depth, wp, free)

  def positive_leaf(self, tb, wp=0.0):
    """A leaf with a strictly positive value on every non-empty set of rows."""
    op = self.choice(["Sum", "Count", "Mean", "Max"])
    t = self.leaf(tb, kind=op)
    t["var"] = self.choice(["p", "w"])
    t["where"] = self.where(tb, wp)
    if op == "Mean":
      t["weight"] = self.choice(["", "w"])
    return t

  def comp(self, tb, depth, wp, kid=None):
    o = self.choice(["+", "-", "*", "/", "/", "**"])
    kid = kid or (lambda: self.single(tb, depth - 1, wp))
    w = self.where(tb, wp * 0.7)
    if o == "**":
      return {"op": "Comp", "o": "**", "where": w, "kids": [kid(), {"op": "Const", "v": self.choice(["2", "2", "3", "1"])}]}
    if o == "/":
      den = self.positive_leaf(tb, 0) if self.chance(0.7) else self.leaf(tb, kind="Sum")
      if self.chance(0.2):
        return {"op": "Comp", "o": "/", "where": w, "kids": [{"op": "Const", "v": self.choice(["1", "-2", "100", "1/4"])}, den]}
      if self.chance(0.25):
        return {"op": "Comp", "o": "/", "where": w, "kids": [kid(), {"op": "Const", "v": self.choice(["2", "-4", "1/2"])}]}
      return {"op": "Comp", "o": "/", "where": w, "kids": [kid(), den]}
    r = self.random()
    c = {"op": "Const", "v": self.choice(["0", "1", "-1", "2", "100", "1/2", "-3/4"])}
    if r < 0.2:
      kids = [c, kid()]
    elif r < 0.4:
      kids = [kid(), c]
    else:
      kids = [kid(), kid()]
    return {"op": "Comp", "o": o, "where": w, "kids": kids}

  def ratio(self, tb, wp=0.0):
    k = lambda: dict(self.leaf(tb, kind="Sum"), where=[])
    a, b = k(), k()
    b["var"] = self.choice(["p", "w"])
    return {"op": "Comp", "o": "/", "ratio": True, "where": self.where(tb, wp), "kids": [a, b]}

  def multi(self, tb, depth, wp, maker=None, n=None, distinct=False):
    maker = maker or (lambda: self.single(tb, depth, wp))
    kids = [maker() for _ in range(n or self.randint(1, 3))]
    if distinct:
      seen = []
      for k in kids:
        key = (k["op"], k.get("var"), k.get("var2"), k.get("weight"), k.get("distinct"), k.get("normalize"))
        if key not in [a for a, _ in seen]:
          seen.append((key, k))
      kids = [k for _, k in seen]
    return {"op": "List", "where": self.where(tb, wp * 0.7), "kids": kids}

  def child(self, tb, depth, wp):
    """A child for an operation: one column or several."""
    if self.chance(0.25):
      return self.multi(tb, depth, wp, distinct=True)
    return self.single(tb, depth, wp)

  def pos_child(self, tb, wp=0.0, multi=0.25):
    if self.chance(multi):
      return dict(self.multi(tb, 0, 0, lambda: self.positive_leaf(tb, wp), 2, distinct=True), where=[])
    if self.chance(0.2):
      return {"op": "Comp", "o": "/", "where": [], "kids": [self.positive_leaf(tb, wp), self.positive_leaf(tb)]}
    return self.positive_leaf(tb, wp)

  def dist(self, tb, free, wp=0.0, child=None, op=None):
    op = op or self.choice(["Distribution", "Cumulative"])
    over = self.over(free)
    t = {"op": op, "over": over, "where": self.where(tb, wp), "kids": [child or self.pos_child(tb, wp)]}
    if op == "Cumulative":
      t["asc"] = self.chance(0.5)
      t["byval"] = self.chance(0.35)
      t["order"] = []
      t["orderkind"] = "str"
      if not t["byval"] and len(over) == 1 and self.chance(0.5):
        vals = list(tb["ord"][over[0]])
        self.shuffle(vals)
        t["order"] = vals[:self.randint(max(1, len(vals) - 1), len(vals))]
        t["orderkind"] = tb["kinds"][over[0]]
    return t

  def diversity(self, tb, op, depth, wp, free, child=None):
    t = {"op": op, "over": self.over(free), "where": self.where(tb, wp), "kids": [child or self.pos_child(tb, wp)]}
    if op == "TopK":
      t["k"] = self.randint(1, 4)
    if op == "Nxx":
      t["share"] = self.choice(["1/10", "1/5", "3/10", "1/2", "3/4", "9/10", "99/100", "1"])
    return t

  def change(self, tb, free, wp=0.0, child=None, op=None, ncond=None):
    cond = self.over(free, ncond)
    op = op or self.choice(["Percent", "Absolute"])
    return {"op": op, "cond": cond, "base": self.base(tb, cond), "basekinds": [tb["kinds"][c] for c in cond],
            "incl": self.chance(0.4), "where": self.where(tb, wp),
            "kids": [child or (self.pos_child(tb, wp) if op == "Percent" else self.child(tb, 1, wp))]}

  def mh(self, tb, free, wp=0.0):
    free = list(free)
    self.shuffle(free)
    cond = free[:1 if len(free) < 3 or self.chance(0.7) else 2]
    rest = free[len(cond):]
    strata = rest[:1 if len(rest) < 2 or self.chance(0.7) else 2]
    def one():
      a = self.leaf(tb, kind=self.choice(["Sum", "Sum", "Count"]))
      a["var"] = self.choice(["p", "w", "z"])
      b = self.leaf(tb, kind=self.choice(["Sum", "Count"]))
      b["var"] = self.choice([v for v in ["p", "w", "x"] if v != a["var"]])
      if b["op"] == "Sum" and b["var"] == "x":
        b["var"] = "w" if a["var"] != "w" else "p"
      if self.chance(0.15):                     # the same but for the filter
        b = json.loads(json.dumps(a))
      a["where"], b["where"] = self.where(tb, wp), self.where(tb, wp * .5)
      return {"op": "Comp", "o": "/", "where": self.where(tb, wp), "kids": [a, b]}
    kid = one() if self.chance(0.7) else {"op": "List", "where": self.where(tb, wp), "kids": [one(), one()]}
    return {"op": "MH", "cond": cond, "strata": strata, "base": self.base(tb, cond),
            "basekinds": [tb["kinds"][c] for c in cond], "incl": self.chance(0.4),
            "where": self.where(tb, wp), "kids": [kid]}

  def prepost(self, tb, free, wp=0.0, op=None, strata=("u",)):
    cond = self.over(free, 1 if self.chance(0.8) else None)
    nc = self.choice([1, 1, 2])
    def cov(v):
      return {"op": self.choice(["Sum", "Mean"]), "var": v, "weight": "", "where": []}
    vs = self.sample(["y", "z", "p"], nc)
    child = {"op": self.choice(["Sum", "Mean"]), "var": "x", "weight": "", "where": []}
    z = cov(vs[0]) if nc == 1 else {"op": "List", "where": [], "kids": [cov(v) for v in vs]}
    return {"op": op or self.choice(["PrePost", "CUPED"]), "cond": cond, "strata": list(strata),
            "base": self.base(tb, cond), "basekinds": [tb["kinds"][c] for c in cond],
            "incl": self.chance(0.4), "where": self.where(tb, wp), "kids": [child, z]}
