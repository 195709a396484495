"""Scenario families: one function per class, each drawing one scenario from a generator."""
import itertools
import json
from fractions import Fraction


DIMS = ["g", "h", "s", "r"]


def split(g, most=2, pool=("s", "r"), none=0.35):
  if g.chance(none):
    return []
  k = g.randint(1, most)
  return g.sample(list(pool), k)


def ev(cls, tb, tree, sp):
  return {"kind": "eval", "cls": cls, "tb": tb, "tree": tree, "sp": list(sp)}


LEAVES = ["Sum", "Count", "Mean", "Max", "Min", "Dot", "Variance", "StandardDeviation", "CV",
          "Cov", "Correlation", "Quantile", "Nth"]


def leaf(g, op=None, wp=0.0, none=0.35, small=False):
  """A base aggregate on a random table."""
  op = op or g.choice(LEAVES)
  tb = g.table(nrows=g.randint(1, 5) if small else g.randint(4, 18), cats=g.chance(0.1))
  t = g.leaf(tb, kind=op, wp=wp)
  multi = [c for c in ("weight", "var2", "fweight") if t.get(c)]
  if g.chance(0.35) and not multi:
    # missing values: only the single-column statistics define what they do
    c = t["var"]
    p = g.choice([0.15, 0.4, 0.8])
    for r in tb["rows"]:
      if g.chance(p):
        r[c] = "nan"
    tb["intnum"] = False
  weights = [t.get("weight"), t.get("fweight")]
  if g.chance(0.15) and t["var"] not in weights:              # constant column
    v = str(g.randint(-2, 3))
    c = t["var"]
    if t["op"] != "CV":
      for r in tb["rows"]:
        r[c] = v if r[c] != "nan" else "nan"
  if g.chance(0.2) and t["var"] not in weights:               # fractional values, exactly representable
    c = t["var"]
    for r in tb["rows"]:
      if r[c] != "nan" and g.chance(0.5):
        r[c] = "%d/4" % (4 * int(r[c]) + g.choice([1, 3])) if "/" not in r[c] else r[c]
    tb["intnum"] = False
  return ev(op, tb, t, split(g, 2, DIMS, none))


def leaves(t):
  """The base aggregates of a tree."""
  return [t] if t["op"] in LEAVES else [l for k in t.get("kids", []) for l in leaves(k)]


def sprinkle(g, s, p=0.15):
  """Missing values in a column that no multi-column statistic reads."""
  if not g.chance(p):
    return s
  ls = leaves(s["tree"])
  multi = {l[c] for l in ls for c in ("weight", "var2", "fweight") if l.get(c)} | {
      l["var"] for l in ls if l.get("weight") or l.get("var2") or l.get("fweight")}
  cols = sorted({l["var"] for l in ls} - multi)
  if cols:
    c, q = g.choice(cols), g.choice([0.1, 0.3, 0.7])
    for r in s["tb"]["rows"]:
      if g.chance(q):
        r[c] = "nan"
    s["tb"]["intnum"] = False
  return s


def comp(g, wp=0.1):
  tb = g.table(nrows=g.randint(6, 20), cats=g.chance(0.1))
  return sprinkle(g, ev("arith", tb, g.comp(tb, g.randint(1, 3), wp), split(g)))


def lst(g, wp=0.1, depth=2):
  tb = g.table(nrows=g.randint(6, 20), cats=g.chance(0.1))
  return sprinkle(g, ev("list", tb, g.multi(tb, depth, wp), split(g)))


def dist(g, wp=0.1, op=None):
  tb = g.table(nrows=g.randint(6, 24), cats=g.chance(0.1))
  sp = split(g)
  free = [d for d in DIMS if d not in sp]
  t = g.dist(tb, free, wp, op=op)
  return sprinkle(g, ev(t["op"], tb, t, sp))


def change(g, wp=0.1, op=None):
  tb = g.table(nrows=g.randint(8, 28), cats=g.chance(0.1))
  sp = split(g)
  free = [d for d in DIMS if d not in sp]
  t = g.change(tb, free, wp, op=op)
  return sprinkle(g, ev(t["op"], tb, t, sp))


def nested(g, wp=0.1, pick=None):
  """Operations over operations."""
  tb = g.table(nrows=g.randint(12, 36), card=g.choice([2, 2, 3]), cats=g.chance(0.1))
  sp = split(g, 1)
  free = [d for d in DIMS if d not in sp]
  g.shuffle(free)
  a, rest = free[0], free[1:]
  outer = g.choice(["Percent", "Absolute", "Distribution", "Cumulative", "List", "Comp"])
  if pick and g.chance(0.6):
    outer = g.choice(pick)
  inner = g.choice(["Percent", "Absolute", "Distribution", "Cumulative", "HHI", "TopK", "Nxx", "Entropy"])
  if pick and outer not in pick:
    inner = g.choice(pick)
  def make(op, dims, kid=None):
    if op in ("Percent", "Absolute"):
      return g.change(tb, dims, wp, child=kid, op=op, ncond=1)
    if op in ("Distribution", "Cumulative"):
      t = g.dist(tb, dims[:1], wp, child=kid, op=op)
      if kid is not None:
        t["byval"] = False
      return t
    return g.diversity(tb, op, 0, wp, dims[:1], child=kid)
  if outer in ("List", "Comp"):
    if outer == "List":
      t = {"op": "List", "where": g.where(tb, wp), "kids": [make(inner, rest), make(inner, rest)]}
      t["kids"][1]["over" if "over" in t["kids"][0] else "cond"] = list(
          t["kids"][0].get("over") or t["kids"][0].get("cond"))
      for f in ("base", "basekinds"):
        if f in t["kids"][0]:
          t["kids"][1][f] = list(t["kids"][0][f])
    else:
      x = make(inner, rest)
      o = g.choice(["+", "-", "*", "/"])
      c = {"op": "Const", "v": g.choice(["2", "-1", "1/2"])}
      t = {"op": "Comp", "o": o, "where": g.where(tb, wp), "kids": [x, c] if g.chance(0.6) or o == "/" else [c, x]}
  else:
    if outer in ("Distribution", "Cumulative") and inner in ("Percent", "Absolute"):
      inner = g.choice(["Distribution", "HHI", "TopK", "Nxx"])   # shares of changes are ill-conditioned
    t = make(outer, [a], make(inner, rest))
  return sprinkle(g, ev("nested", tb, t, sp))


def mh(g, wp=0.1):
  tb = g.table(nrows=g.randint(10, 36), cats=g.chance(0.1))
  sp = split(g, 1, ("s", "r"), 0.45)
  free = [d for d in DIMS if d not in sp]
  s = ev("MH", tb, g.mh(tb, free, wp), sp)
  if g.chance(0.25):
    for r in tb["rows"]:                   # strata whose denominators are below one
      for c in ("x", "y", "z", "w", "p"):
        if r.get(c, "nan") != "nan":
          r[c] = str(Fraction(r[c]) / 16)
    tb["intnum"] = False
  return s


def prepost(g, wp=0.0, op=None):
  sp = g.choice([[], [], ["s"], ["s", "r"]])
  k = g.randint(3, 6)
  strata = g.choice([["u"], ["u"], ["u"], ["u", "h"]])
  dims = ("g", "s") + (("r",) if "r" in sp else ()) + (("h",) if "h" in strata else ())
  n = g.randint(14, 26) * (1 + len(sp))
  tb = g.table(nrows=n, nunits=k + (1 if "h" not in strata else 0), dims=dims, card=g.choice([2, 2, 3]))
  t = g.prepost(tb, ["g"], wp, op=op, strata=strata)
  y = t["kids"][0]
  if g.chance(0.2):                             # several outcomes
    t["kids"][0] = {"op": "List", "where": [], "kids": [y, dict(y, op={"Sum": "Mean", "Mean": "Sum"}[y["op"]])]}
  elif g.chance(0.3) and t["kids"][1]["op"] != "List":       # the outcome of another period
    pre = []
    for r in tb["rows"]:
      r["d"] = "b"
      pre.append(dict(r, d="a", x=str(g.randint(-4, 9)), t=str(int(r["t"]) + n)))
    tb["rows"] += pre
    tb["ord"]["d"], tb["kinds"]["d"] = ["a", "b"], "str"
    at = lambda v: [{"c": "lab", "col": "d", "o": "==", "v": v, "int": False}]
    y["where"] = at("b")
    t["kids"][1] = dict(y, where=at("a"))
  return ev(t["op"], tb, t, sp)


def diversity(g, wp=0.1, op=None, big=False):
  tb = g.table(nrows=g.randint(20, 40) if big else g.randint(6, 24), card=5 if big else None, cats=g.chance(0.1))
  sp = split(g)
  free = [d for d in DIMS if d not in sp]
  op = op or g.choice(["HHI", "Entropy", "TopK", "Nxx"])
  return sprinkle(g, ev(op, tb, g.diversity(tb, op, 1, wp, free), sp))


def many(f, g, n, *a, **k):
  return [f(g, *a, **k) for _ in range(n)]


# ---- relations ---------------------------------------------------------------

FAMS = None


def any_eval(g, wp=0.1):
  f = g.choice([leaf, leaf, comp, lst, dist, change, nested, mh, prepost, diversity])
  return f(g, wp=wp)


def must_split(g, f):
  while True:
    s = f(g)
    if s["sp"]:
      return s


def strip_where(t):
  """Removes the filters below the root (a filter on a member may hide a slice from it)."""
  for k in t.get("kids", []):
    k["where"] = []
    strip_where(k)
  return t


def slices(g):
  """Any tree, split, against the same tree on each slice alone."""
  s = must_split(g, lambda g: any_eval(g, 0.15))
  s["tree"] = strip_where(s["tree"])
  no_ties(s["tree"])
  if s["tree"].get("interp") == "nearest":   # pandas resolves a tie differently per code path
    s["tree"]["interp"] = "linear"
  s["kind"] = "slices"
  s["cls"] = "slices:" + s["tree"]["op"]
  return s


def indexed(t):
  """Whether the result of a tree has index columns of its own."""
  return t["op"] in ("Distribution", "Cumulative", "Percent", "Absolute", "MH", "PrePost", "CUPED") or any(
      indexed(k) for k in t.get("kids", []))


def no_ties(t):
  """The order among equal values is not specified, so no sorting by value in relations."""
  if t.get("byval"):
    t["byval"] = False
  if t["op"] == "Cumulative" and indexed(t["kids"][0]):
    t["op"] = "Distribution"
  for k in t.get("kids", []):
    no_ties(k)


def prefiltered(g):
  """A filter, against removing the rejected rows beforehand; and the same filters differently arranged."""
  s = any_eval(g, 0.2)
  tb, t = s["tb"], s["tree"]
  no_ties(t)
  a, b = g.cond(tb), g.cond(tb)
  import copy
  outer = copy.deepcopy(t)
  outer["where"] = outer["where"] + [a, b]
  swapped = copy.deepcopy(t)
  swapped["where"] = [b, a] + swapped["where"]
  asks = [{"tree": outer, "tb": tb, "sp": s["sp"]}, {"tree": swapped, "tb": tb, "sp": s["sp"]},
          {"tree": {"op": "List", "where": [a], "kids": [dict(copy.deepcopy(t), where=t["where"] + [b])]}, "tb": tb, "sp": s["sp"]},
          {"tree": t, "tb": tb, "sp": s["sp"], "how": {"keep": [a, b]}}]
  return {"kind": "same", "cls": "prefiltered:" + t["op"], "asks": asks, "titles": False}


def reordered(g):
  s = any_eval(g, 0.15)
  tb, sp = s["tb"], s["sp"]
  n = len(tb["rows"])
  no_ties(s["tree"])
  def perm():
    p = list(range(n))
    g.shuffle(p)
    return p
  import copy
  asks = [{"tree": s["tree"], "tb": tb, "sp": sp}]
  asks.append({"tree": s["tree"], "tb": tb, "sp": sp, "how": {"perm": perm(), "reset": g.chance(0.5)}})
  lab = g.choice([["r%d" % (i % 3) for i in range(n)], [7] * n, list(range(n, 0, -1)), [i // 2 for i in range(n)]])
  asks.append({"tree": s["tree"], "tb": tb, "sp": sp, "how": {"index": lab, "perm": perm()}})
  extra = {g.choice(["zz", "extra", "q", "k", "v"]): g.choice([0, 1.5, "text", None])}
  names = list(tb["rows"][0])
  g.shuffle(names)
  asks.append({"tree": s["tree"], "tb": tb, "sp": sp, "how": {"extra": extra, "cols": names}})
  ren = {c: g.choice(["%s2", "col_%s", "%s%s"]).replace("%s", c) for c in names}
  asks.append(rename({"tree": s["tree"], "tb": tb, "sp": sp}, ren))
  out = {"kind": "same", "cls": "order:" + s["tree"]["op"], "asks": asks, "titles": False, "ren": ren}
  return out


def rename(a, ren):
  """The same question with the columns consistently renamed."""
  import copy
  a = copy.deepcopy(a)
  tb = a["tb"]
  tb["rows"] = [{ren[c]: v for c, v in r.items()} for r in tb["rows"]]
  for f in ("ord", "kinds", "cat"):
    tb[f] = {ren.get(c, c): v for c, v in tb[f].items()}
  def go(t):
    for f in ("var", "var2", "weight", "fweight", "sort"):
      if t.get(f):
        t[f] = ren[t[f]]
    for f in ("over", "cond", "strata"):
      if t.get(f):
        t[f] = [ren[c] for c in t[f]]
    def fc(c):
      if "col" in c:
        c["col"] = ren[c["col"]]
      for k in ("a", "b"):
        if k in c:
          fc(c[k])
    for c in t.get("where") or []:
      fc(c)
    for k in t.get("kids", []):
      go(k)
  go(a["tree"])
  a["sp"] = [ren[c] for c in a["sp"]]
  a["how"] = {"unren": {v: k for k, v in ren.items()}}
  return a


def slow(g, wp=0.15):
  """Metrics of the user's which are computed slice by slice with the help of others."""
  tb = g.table(nrows=g.randint(8, 24))
  sp = split(g, 2, none=0.2)
  free = [d for d in DIMS if d not in sp]
  def one():
    k = strip_where(g.leaf(tb) if g.chance(0.6) else g.comp(tb, 1, 0))
    return {"op": "Slow", "where": g.where(tb, wp), "kids": [dict(k, where=[])]}
  other = lambda: one() if g.chance(0.6) else g.leaf(tb, wp=wp)
  t = one()
  r = g.random()
  over = [g.choice(free)]
  if r < 0.25:
    t = {"op": "List", "where": g.where(tb, wp), "kids": [t] + [other() for _ in range(g.randint(1, 2))]}
  elif r < 0.5:
    kids = [t, other()]
    g.shuffle(kids)
    t = {"op": "Comp", "o": g.choice(["+", "-", "*"]), "where": g.where(tb, wp), "kids": kids}
  elif r < 0.65:
    t = {"op": g.choice(["Percent", "Absolute"]), "cond": over, "base": g.base(tb, over), "basekinds": [tb["kinds"][c] for c in over],
         "incl": g.chance(0.3), "where": g.where(tb, wp), "kids": [t]}
  elif r < 0.75:
    t["kids"] = [g.positive_leaf(tb, 0)]
    t = {"op": g.choice(["Distribution", "HHI", "Entropy"]), "over": over, "where": g.where(tb, wp), "kids": [dict(t)]}
  elif r < 0.85:
    regroup_units(g, tb, g.choice([2, 3, 4]))
    t = {"op": "Jackknife", "unit": "u", "conf": "", "where": g.where(tb, wp), "kids": [t], "opt": g.chance(0.6)}
  return ev("slow", tb, t, sp)


def alike(g, wp=0.2):
  """Arithmetic on lists, whose columns may have equal titles."""
  tb = g.table(nrows=g.randint(4, 16))
  lf = lambda: g.leaf(tb, ops=["Sum", "Count", "Mean", "Max"])
  def column():
    l = lf()
    n = g.randint(2, 3)
    kids = [dict(l, where=[g.cond(tb)] if i or g.chance(0.5) else []) for i in range(n)]
    if g.chance(0.3):
      kids[g.randint(0, n - 1)] = lf()
    return {"op": "List", "where": g.where(tb, wp), "kids": kids}
  c = {"op": "Const", "v": g.choice(["1", "-2", "100", "1/4", "3"])}
  r = g.random()
  kids = [c, column()] if r < 0.4 else [column(), c] if r < 0.7 else [column(), lf()] if r < 0.85 else [lf(), column()]
  if r > 0.7:
    for k in kids:                          # the same slices on both sides
      for _, t in nodes(k):
        t["where"] = []
  return ev("alike", tb, {"op": "Comp", "o": g.choice(["+", "-", "*", "/"]) if kids[0] is c else g.choice(["+", "-", "*"]),
                          "where": g.where(tb, wp), "kids": kids}, split(g, 2, none=0.3))


def members(g):
  """A list against its members computed on their own: numbers and titles."""
  s = lst(g, 0.15, g.choice([0, 1, 2]))
  t = s["tree"]
  t["where"] = []
  extra = [d for d in ("g", "h") if True]
  if g.chance(0.4):
    op = g.choice(["Distribution", "Percent", "Absolute", "HHI"])
    over = [g.choice(extra)]
    for i, k in enumerate(t["kids"]):
      if op in ("Percent", "Absolute"):
        base = g.base(s["tb"], over)
        t["kids"][i] = {"op": op, "cond": over, "base": base, "basekinds": [s["tb"]["kinds"][c] for c in over],
                        "incl": False, "where": [], "kids": [g.leaf(s["tb"], ops=["Sum", "Mean", "Max"])]}
      else:
        t["kids"][i] = {"op": op, "over": over, "where": [], "kids": [g.positive_leaf(s["tb"])]}
  if g.chance(0.3):
    t["rename"] = ["c%d" % i for i in range(len(t["kids"]))]
  return {"kind": "members", "cls": "members", "tb": s["tb"], "tree": t, "sp": s["sp"]}


def opcomp(g, wp=0.1):
  """Arithmetic between operations over the same columns, lists and base metrics."""
  tb = g.table(nrows=g.randint(10, 26))
  sp = split(g, 1)
  free = [d for d in DIMS if d not in sp]
  over = [g.choice(free)]
  base = g.base(tb, over)
  def operand():
    r = g.random()
    if r < 0.3:
      return {"op": "Distribution", "over": over, "where": g.where(tb, wp), "kids": [g.pos_child(tb, 0, 0)]}
    if r < 0.75:
      return {"op": g.choice(["Percent", "Absolute"]), "cond": over, "base": base,
              "basekinds": [tb["kinds"][c] for c in over], "incl": False, "where": [],
              "kids": [g.positive_leaf(tb)]}
    return None
  a = operand() or g.leaf(tb, wp=wp, ops=["Sum", "Mean", "Count"])
  b = operand() or (g.leaf(tb, wp=wp, ops=["Sum", "Mean", "Count"]) if g.chance(0.6)
                    else {"op": "Const", "v": g.choice(["2", "-1/2"])})
  if a["op"] in ("Sum", "Mean", "Count") and b["op"] == "Const":
    a = {"op": "Distribution", "over": over, "where": [], "kids": [g.pos_child(tb, 0, 0.5)]}
  o = g.choice(["+", "-", "*"])
  return ev("opcomp", tb, {"op": "Comp", "o": o, "where": g.where(tb, wp), "kids": [a, b]}, sp)


def sigs(t):
  """What the titles of the columns of a tree are made of, roughly: equal titles have equal signatures."""
  if t.get("rename"):
    return list(t["rename"])
  if t["op"] == "List":
    return [x for k in t["kids"] for x in sigs(k)]
  own = (t["op"], t.get("var"), t.get("var2"), t.get("o"), t.get("v"))
  if t["op"] == "Quantile":
    return [own + (q,) for q in t["q"]]
  kids = t.get("kids", [])
  if not kids:
    return [own]
  cols = [sigs(k) for k in (kids if t["op"] == "Comp" else kids[:1])]
  n = max(len(c) for c in cols)
  return [own + tuple(c[min(i, len(c) - 1)] for c in cols) for i in range(n)]


def ambiguous(t):
  """Whether some part of the tree may have two columns of the same title."""
  s = sigs(t)
  return len(set(s)) < len(s) or any(ambiguous(k) for k in t.get("kids", []))


def tree_any(g, wp, nrows, nunits, families=None):
  """A scenario of any family on a table with nunits units."""
  f = g.choice(families or [leaf, leaf, comp, lst, dist, change, nested, mh, diversity])
  s = f(g, wp=wp)
  n = len(s["tb"]["rows"])
  return s


def regroup_units(g, tb, k):
  """Assigns the rows of a table to k units."""
  tb["kinds"]["u"] = g.choice(["str", "int"])
  labels = ["u%d" % i for i in range(1, k + 1)] if tb["kinds"]["u"] == "str" else [str(i) for i in range(1, k + 1)]
  for r in tb["rows"]:
    r["u"] = g.choice(labels)
  seen = {r["u"] for r in tb["rows"]}
  tb["ord"]["u"] = [a for a in labels if a in seen]


def gap(g, tb):
  """A column in front which is missing in all of a unit, or some."""
  missing = g.sample(tb["ord"]["u"], g.randint(1, len(tb["ord"]["u"]) - 1)) if len(tb["ord"]["u"]) > 1 else []
  for r in tb["rows"]:
    old = dict(r)
    r.clear()
    r["q"] = "nan" if old["u"] in missing else str(g.randint(-3, 3))
    r.update(old)
  tb["intnum"] = False


def jackknife(g, wp=0.15, fams=None, opt=None, conf=0.0):
  s = tree_any(g, wp, None, None, fams)
  while ambiguous(s["tree"]):
    s = tree_any(g, wp, None, None, fams)
  if s["cls"] not in ("PrePost", "CUPED") or g.chance(0.2):
    regroup_units(g, s["tb"], g.choice([2, 3, 3, 4, 5]))
  for _, t in nodes(s["tree"]):
    if t["op"] == "MH" and t["kids"][0]["op"] == "List":
      for k in t["kids"][0]["kids"]:         # a ratio without baseline takes the other ones with it
        for _, a in nodes(k):
          if "where" in a:
            a["where"] = []
  if g.chance(0.06):                       # the unit is also what is measured
    s = ev("arith", g.table(nrows=g.randint(6, 20)), {}, split(g))
    regroup_units(g, s["tb"], g.choice([2, 3, 4]))
    over = {"op": g.choice(["HHI", "Entropy"]), "over": ["u"], "where": [], "kids": [g.positive_leaf(s["tb"])]}
    s["tree"] = over if g.chance(0.6) else {"op": "Count", "var": "u", "distinct": g.chance(0.7), "where": g.where(s["tb"], wp)}
    s["cls"] = "unit:" + s["tree"]["op"]
  if g.chance(0.06):                       # or a metric of the user's
    kid = s["tree"] = strip_where(s["tree"])
    if kid["op"] in LEAVES and kid["op"] != "Quantile" or kid["op"] == "Comp" and width(kid) and all(k["op"] in LEAVES + ["Const"] for k in kid["kids"]):
      s["tree"] = {"op": "Slow", "where": kid["where"], "kids": [dict(kid, where=[])]}
  t = {"op": "Jackknife", "unit": "u", "conf": g.choice(["1/2", "9/10", "19/20"]) if g.chance(conf) else "",
       "where": g.where(s["tb"], wp * 0.7), "kids": [s["tree"]],
       "opt": g.chance(0.6) if opt is None else opt}
  if g.chance(0.15):
    gap(g, s["tb"])
  return ev("jk:" + s["cls"], s["tb"], t, s["sp"])


def jk_prepost(g, wp=0.1, conf=0.0):
  return jackknife(g, wp, [prepost], conf=conf)


def bootstrap(g, op=None, wp=0.15, conf=0.0, unit=None, opt=None, extra=None, own=0.1):
  """A bootstrap of a list whose first members count the draws of every unit."""
  op = op or g.choice(["Bootstrap", "Poisson"])
  byunit = g.chance(0.7) if unit is None else unit
  tb = g.table(nrows=g.randint(5, 12), card=g.choice([2, 3]))
  sp = split(g, 1 if extra else 2)
  if byunit:
    regroup_units(g, tb, g.choice([2, 3, 3, 4, 5]))
    if g.chance(0.3):
      gap(g, tb)
    ids = [r["u"] for r in tb["rows"]]
    units = tb["ord"]["u"]
  else:
    ids = [r["t"] for r in tb["rows"]]
    units = sorted(ids, key=int)
  ind = ["e%d" % (j + 1) for j in range(len(units))]
  for r, a in zip(tb["rows"], ids):
    for j, u in enumerate(units):
      r[ind[j]] = "1" if a == u else "0"
  opt = g.chance(0.6) if opt is None else opt
  extra = g.chance(0.35) if extra is None else extra
  inds = [{"op": "Sum", "var": c, "where": []} for c in ind]
  if extra:
    h = g.choice(["g", "h"])
    inds = [{"op": "Raw", "over": [h], "where": [], "kids": [k]} for k in inds]
    ops = []
    for _ in range(g.randint(1, 2)):
      o = g.choice(["Distribution", "Percent", "Absolute"])
      kid = g.leaf(tb, wp=wp) if not g.chance(0.3) else g.comp(tb, 1, wp)
      if o == "Distribution":
        ops.append({"op": o, "over": [h], "where": [], "kids": [g.pos_child(tb, 0, wp)]})
      else:
        ops.append({"op": o, "cond": [h], "base": g.base(tb, [h]), "basekinds": [tb["kinds"][h]], "incl": True,
                    "where": [], "kids": [kid]})
  else:
    ops = []
    for _ in range(g.randint(1, 2)):
      r = g.random()
      if r < 0.5:
        k = g.leaf(tb, wp=wp)
        if g.chance(own):
          k = {"op": "Slow", "where": k["where"], "kids": [dict(k, where=[])]}
      elif r < 0.8:
        k = g.comp(tb, g.randint(1, 2), wp)
      else:
        k = g.diversity(tb, g.choice(["HHI", "Entropy", "TopK"]), 0, wp, ["g", "h"])
      ops.append(k)
  tree = {"op": "List", "where": [], "kids": inds + ops}
  if ambiguous(tree):
    return bootstrap(g, op, wp, conf, unit, opt, extra, own)
  t = {"op": op, "unit": "u" if byunit else "", "n": g.randint(3, 7), "conf": g.choice(["1/2", "9/10"]) if g.chance(conf) else "",
       "where": g.where(tb, 0.15), "kids": [tree], "opt": opt}
  return {"kind": "boot", "cls": "boot:%s:%s%s%s" % (op, "u" if byunit else "r", "x" if extra else "", "o" if opt else ""),
          "tb": tb, "tree": t, "sp": sp, "k": len(ind), "ind": ind, "seed": g.randint(1, 10**6),
          "partial": op == "Poisson"}


def formats(g, fams=None, wp=0.1):
  """A computation in wide, long and raw form."""
  f = g.choice(fams or [leaf, comp, lst, dist, change, nested, mh, prepost, diversity, jackknife, "conf", "boot"])
  if f == "conf":
    s = jackknife(g, wp, conf=1.0)
  elif f == "boot":
    s = bootstrap(g, conf=0.5)
  else:
    s = f(g, wp=wp)
  if ambiguous(s["tree"]):
    return formats(g, fams, wp)
  t = s["tree"]
  w = 3 if t.get("conf") else 2 if t["op"] in ("Jackknife", "Bootstrap", "Poisson") else 1
  if t["op"] == "List" and g.chance(0.3):
    n = len(sigs(dict(t, rename=None)))
    if g.chance(0.3) and all(k["op"] in LEAVES and k["op"] != "Quantile" for k in t["kids"]):   # two members of the same title
      t["kids"].append(dict(g.choice(t["kids"]), where=[g.cond(s["tb"])]))
      n = len(t["kids"])
    t["rename"] = g.choice([["n%d" % i for i in range(n)], ["Value"] + ["n%d" % i for i in range(1, n)], ["n%d" % i for i in range(n, 0, -1)]])
  elif t["op"] in LEAVES and t["op"] != "Quantile" and g.chance(0.3):
    t["name"] = g.choice(["my name", "Value", "x", "0", "Metric"])
  raw = len(sigs(t)) == 1 and w == 1 and t["op"] != "List"
  return {"kind": "formats", "cls": "forms:" + s["cls"].split(":")[0], "tb": s["tb"], "tree": t, "sp": s["sp"], "w": w,
          "raw": raw, "seed": g.randint(1, 10**6)}


def odd_names(g, s):
  """The numeric columns get names that differ in special characters only."""
  def nofilter(t):
    t["where"] = []
    for k in t.get("kids", []):
      nofilter(k)
  nofilter(s["tree"])
  names = ["a b", "a_b", "a-b", "a.b", "_a", "a", "a (b)", "a+b"]
  g.shuffle(names)
  cols = [c for c in ("x", "y", "z", "w", "p") if c in s["tb"]["rows"][0]]
  ren = {c: c for c in s["tb"]["rows"][0]}
  ren.update(zip(cols, names))
  r = rename({"tree": s["tree"], "tb": s["tb"], "sp": s["sp"]}, ren)
  return dict(s, tree=r["tree"], tb=r["tb"], cls=s["cls"] + ":names")


def bootstrap_odd(g, op):
  return odd_names(g, bootstrap(g, op, unit=True, opt=True))


def draws(g, op, unit=True, opt=True, split_=False, n=8, reps=250, extra=False):
  """The distribution of the draws."""
  rows = []
  per = g.choice([1, 2, 3]) if unit else 1
  for s in ("a", "b") if split_ else ("a",):
    for j in range(n):
      for i in range(per):
        rows.append(dict({"s": s, "u": "u%d" % (j + 1), "x": "1"},
                         **{"e%d" % (m + 1): "1" if m == j else "0" for m in range(n)}))
  tb = {"rows": rows, "ord": {"s": ["a", "b"] if split_ else ["a"], "u": ["u%d" % (j + 1) for j in range(n)]},
        "kinds": {"s": "str", "u": "str"}, "cat": {}, "intnum": True, "types": {}}
  ind = ["e%d" % (m + 1) for m in range(n)]
  t = {"op": op, "unit": "u" if unit else "", "n": reps, "conf": "", "where": [], "opt": opt,
       "kids": [{"op": "List", "where": [], "kids": [{"op": "Sum", "var": c, "where": []} for c in ind]}]}
  return {"kind": "draws", "cls": "draws:" + op, "tb": tb, "tree": t, "sp": ["s"] if split_ else [], "ind": ind,
          "rows_per_unit": per, "slices": [["a"], ["b"]] if split_ else [[]], "seed": g.randint(1, 10**6)}


# ---- queries ---------------------------------------------------------------------

def dims_used(t):
  out = set(t.get("over") or []) | set(t.get("cond") or []) | set(t.get("strata") or [])
  if t["op"] == "Jackknife":
    out.add(t["unit"])
  for k in t.get("kids", []):
    out |= dims_used(k)
  return out


def holds(c, r):
  """Whether a row passes a filter."""
  from fractions import Fraction as F
  k = c["c"]
  if k == "and":
    return holds(c["a"], r) and holds(c["b"], r)
  if k == "or":
    return holds(c["a"], r) or holds(c["b"], r)
  if k == "not":
    return not holds(c["a"], r)
  v = r[c["col"]]
  if k == "in":
    return v in c["v"]
  if k == "lab":
    return (v == c["v"]) == (c["o"] == "==")
  a, b = F(v), F(c["v"])
  return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[c["o"]]


def counted(t, path=(), ops=("Count",)):
  """The filters every Count below sees."""
  path = path + tuple(t.get("where") or ())
  if t["op"] in ops:
    return [path]
  return [p for k in t.get("kids", []) for p in counted(k, path, ops)]


FRAGILE = {"Cumulative", "HHI", "Entropy", "TopK", "Nxx", "Jackknife", "Bootstrap"}


def ops_in(t):
  return {t["op"]}.union(*[ops_in(k) for k in t.get("kids", [])])


def emptied(s):
  """Whether a filter empties a group where that means different things in SQL.

  A query keeps the group: a count there is zero, a sum missing, and what is
  accumulated over the groups sees it.
  """
  t = s["tree"]
  rows = s["tb"]["rows"]
  fragile = bool(ops_in(t) & FRAGILE)
  unit = t["unit"] if t["op"] == "Jackknife" else None
  cs = sorted((dims_used(t) | set(s["sp"])) - {unit})
  def groups(rs):
    return {tuple(r[c] for c in cs) for r in rs}
  def broken(p, rs):
    return groups(r for r in rs if all(holds(w, r) for w in p)) != groups(rs)
  parts = [rows]
  if unit:
    parts += [[r for r in rows if r[unit] != u] for u in {r[unit] for r in rows}]
  for p in counted(t, ops=LEAVES):
    if p and fragile and any(broken(p, rs) for rs in parts):
      return True
  for p in counted(t, ops=("Sum", "Dot")):
    if p and not any(all(holds(w, r) for w in p) for r in rows):
      return True
  return any(p and broken(p, rows) for p in counted(t))


def columns_of(t, path=()):
  """What every column of a result is computed from."""
  path = path + tuple(t.get("where") or ())
  rest = {k: v for k, v in t.items() if k not in ("kids", "where", "name", "rename")}
  if t["op"] in LEAVES:
    return [json.dumps([rest, sorted({json.dumps(w, sort_keys=True) for w in path})], sort_keys=True)]
  kids = [columns_of(k, path) if k["op"] != "Const" else [json.dumps(k)] for k in t["kids"]]
  if t["op"] == "List":                  # resampled metrics are computed on all the rows as well
    also = [columns_of(k["kids"][0], path + tuple(k.get("where") or ())) for k in t["kids"] if k["op"] in RESAMPLE]
    return [c for k in kids + also for c in k]
  n = max(map(len, kids)) if t["op"] == "Comp" else len(kids[0])
  return [json.dumps([rest] + [k[i % len(k)] for k in kids], sort_keys=True) for i in range(n)]


def twins(t):
  """Whether a list computes the same thing twice: a query has it once (a known finding)."""
  if t["op"] in ("List", "PrePost", "CUPED"):       # the outcome and the covariates are a list, too
    c = columns_of({"op": "List", "where": [], "kids": t["kids"]})
    if len(set(c)) < len(c):
      return True
  return any(twins(k) for k in t.get("kids", []))


def sqlable(t):
  if t["op"] == "Correlation":
    t["method"] = "pearson"
  if t["op"] == "Quantile":
    t["interp"] = "linear"
    t["q"] = [{"1/8": "29/100", "5/8": "57/100"}.get(q, q) for q in t["q"]]
  for k in t.get("kids", []):
    sqlable(k)


def sprinkle_sql(g, s, p=0.15):
  """Missing values, but never in all the rows of a group."""
  def filtered(t):
    return bool(t.get("where")) or any(filtered(k) for k in t.get("kids", []))
  if not g.chance(p) or filtered(s["tree"]):
    return s
  ls = leaves(s["tree"])
  multi = {l[c] for l in ls for c in ("weight", "var2", "fweight") if l.get(c)} | {
      l["var"] for l in ls if l.get("weight") or l.get("var2") or l.get("fweight")}
  cols = sorted({l["var"] for l in ls} - multi - set(DIMS) - {"u"})
  if not cols:
    return s
  c = g.choice(cols)
  cs = sorted(dims_used(s["tree"]) | set(s["sp"]))
  seen = set()
  for r in s["tb"]["rows"]:
    k = tuple(r[d] for d in cs)
    if k in seen and g.chance(0.4):
      r[c] = "nan"
    seen.add(k)
  s["tb"]["intnum"] = False
  return s


def as_sql(g, s, **how):
  """An evaluation asked of the database instead."""
  if "Slow" in ops_in(s["tree"]):          # not for databases
    return None
  sqlable(s["tree"])
  if emptied(s) or twins(s["tree"]):
    return None
  s["tb"]["cat"] = {}
  s["tb"]["intnum"] = s["tb"]["intnum"] and g.chance(0.5)
  h = {"titles": True, "table": g.choice(["T"] * 4 + ["query", "object", "columns", "with", "marked", "renamed", "pieces", "clash"])}
  h.update(how)
  return dict(s, kind="sql", cls="sql:" + s["cls"], how=h, seed=g.randint(1, 10**6))


def nomissing(s):
  for r in s["tb"]["rows"]:
    for c in r:
      if r[c] == "nan":
        r[c] = "1"
  return s


def jk_list(g, wp=0.3, conf=0.0):
  """Resampled metrics, with filters of their own, beside one another."""
  tb = g.table(nrows=g.randint(9, 14), nunits=g.randint(3, 4), card=2)
  def one():
    return {"op": "Jackknife", "unit": "u", "conf": "", "where": g.where(tb, wp), "opt": g.chance(0.6),
            "kids": [g.comp(tb, 1, wp) if g.chance(0.3) else g.leaf(tb, wp=wp, kind=g.choice(["Sum", "Mean", "Count", None]))]}
  kids = [one() for _ in range(g.randint(1, 2))] + ([g.leaf(tb, wp=wp)] if g.chance(0.6) else [])
  g.shuffle(kids)
  t = {"op": "List", "where": g.where(tb, wp * 0.5), "kids": kids}
  s = ev("jk:List", tb, t, g.choice([[], [], ["s"]]))
  return jk_list(g, wp, conf) if ambiguous(t) or clash(t, s["sp"]) else s


def sql_of(g, fam, wp=0.15, how=None, **k):
  while True:
    s = sprinkle_sql(g, nomissing(fam(g, wp=wp, **k)))
    s = as_sql(g, s, **(how or {}))
    if s:
      return s


def sql_bootstrap(g, op=None, wp=0.15):
  while True:
    s = nomissing(bootstrap(g, op, wp, conf=0.3, extra=False, own=0))
    q = as_sql(g, s, titles=False)
    if not q or {"StandardDeviation", "CV"} & ops_in(q["tree"]) or any(counted(q["tree"]["kids"][0])):
      continue
    if ops_in(q["tree"]["kids"][0]) & FRAGILE and any(counted(q["tree"]["kids"][0], ops=LEAVES)):
      continue                   # a filter may leave nothing of a group in a resample
    return q


def sql_draws(g, op, unit=True, opt=True, split_=False, n=8, reps=600):
  s = draws(g, op, unit, opt, split_, n, reps)
  if unit and g.chance(0.5):      # numbers that run into one another
    for r in s["tb"]["rows"]:
      r["u"] = {"u1": "1", "u2": "11", "u3": "2", "u4": "12", "u5": "112", "u6": "21", "u7": "3", "u8": "111"}[r["u"]]
    s["tb"]["kinds"]["u"] = "int"
    s["tb"]["ord"]["u"] = sorted({r["u"] for r in s["tb"]["rows"]}, key=int)
  return dict(s, kind="sqldraws", cls="sql" + s["cls"])


def near_twins(g, wp=0.15):
  """A list of metrics with the same titles which differ in their filters, in parts over the same rows and in parts not."""
  tb = g.table(nrows=g.randint(8, 24), card=2)
  sp = split(g, 1)
  free = [d for d in DIMS if d not in sp]
  over = [g.choice(free)]
  base = g.base(tb, over)
  def one():
    r = g.random()
    if r < 0.4:
      return g.leaf(tb, wp=0)
    if r < 0.5:
      return {"op": "Quantile", "var": "x", "weight": "w", "interp": "linear", "single": True, "q": [g.choice(["1/4", "1/2"])], "where": []}
    if r < 0.6:
      return g.comp(tb, 1, 0)
    return g.diversity(tb, g.choice(["HHI", "Entropy", "TopK", "Nxx"]), 0, 0, over)
  def op():
    k = g.positive_leaf(tb)
    if g.chance(0.4):
      return {"op": "Distribution", "over": over, "where": [], "kids": [k]}
    return {"op": g.choice(["Percent", "Absolute"]), "cond": over, "base": base, "basekinds": [tb["kinds"][c] for c in over],
            "incl": False, "where": [], "kids": [k]}
  kind = one if g.chance(0.7) else op
  kids = []
  for _ in range(g.randint(1, 2)):
    k = kind()
    kids.append(k)
    for _ in range(g.randint(1, 2)):
      c = json.loads(json.dumps(k))
      t = c
      while t.get("kids") and g.chance(0.5):
        t = t["kids"][0]
      if t["op"] != "Const":
        t["where"] = [g.cond(tb)]
      kids.append(c)
  g.shuffle(kids)
  return ev("near", tb, {"op": "List", "where": g.where(tb, wp), "kids": kids}, sp)


def beside(g, wp=0.15):
  """A list of metrics of very different kinds, or arithmetic on them."""
  tb = g.table(nrows=g.randint(10, 24), card=2, nunits=4)
  sp = split(g, 1)
  free = [d for d in DIMS if d not in sp]
  g.shuffle(free)
  over, strata = free[:1], free[1:2]
  base = g.base(tb, over)
  kinds = [tb["kinds"][c] for c in over]
  few = [g.where(tb, 0.5) for _ in range(2)]
  where = lambda: json.loads(json.dumps(g.choice(few))) if g.chance(wp * 2) else []
  def one():
    r = g.random()
    if r < 0.3:
      return dict(g.leaf(tb, wp=0), where=where())
    if r < 0.4:
      return {"op": "Quantile", "var": g.choice(["x", "y"]), "weight": g.choice(["", "w"]), "interp": "linear", "single": True,
              "q": [g.choice(["1/4", "1/2"])], "where": where()}
    if r < 0.55:
      return g.comp(tb, 1, 0)
    d = g.diversity(tb, g.choice(["HHI", "Entropy", "TopK", "Nxx"]), 0, 0, [g.choice(free[:2])])
    d["where"] = where()
    return d
  def op():
    k = g.positive_leaf(tb)
    r = g.random()
    if r < 0.3:
      return {"op": "Distribution", "over": over, "where": where(), "kids": [k]}
    if r < 0.65:
      return {"op": g.choice(["Percent", "Absolute"]), "cond": over, "base": base, "basekinds": kinds,
              "incl": g.chance(0.3), "where": where(), "kids": [k]}
    if r < 0.85:
      ratio = {"op": "Comp", "o": "/", "where": where(), "kids": [k, g.choice([{"op": "Count", "var": "x", "distinct": False, "where": []},
                                                                             {"op": "Sum", "var": "w", "where": []}])]}
      return {"op": "MH", "cond": over, "strata": strata, "base": base, "basekinds": kinds, "incl": g.chance(0.3), "where": where(), "kids": [ratio]}
    return dict(g.dist(tb, over, 0, op="Cumulative", child=k), byval=False, where=where())
  kind = one if g.chance(0.6) else op
  kids = [kind() for _ in range(g.randint(2, 4))]
  t = {"op": "List", "where": g.where(tb, wp), "kids": kids}
  if g.chance(0.2):
    t["kids"] = [{"op": "Comp", "o": g.choice("+-*"), "where": where(), "kids": kids[:2]}] + kids[2:]
  return ev("beside", tb, t, sp)


def sql_beside(g): return sql_of(g, beside)
def sql_near(g): return sql_of(g, near_twins)
def sql_leaf(g): return sql_of(g, leaf)
def sql_comp(g): return sql_of(g, comp)
def sql_lst(g): return sql_of(g, lst)
def sql_dist(g): return sql_of(g, dist)
def sql_change(g): return sql_of(g, change)
def sql_nested(g): return sql_of(g, nested)
def sql_mh(g): return sql_of(g, mh)
def sql_prepost(g): return sql_of(g, prepost)
def sql_diversity(g): return sql_of(g, diversity)
def sql_opcomp(g): return sql_of(g, opcomp)
def sql_jackknife(g): return sql_of(g, jackknife, conf=0.4)
def sql_jk_list(g): return sql_of(g, jk_list)


# ---- leaves in the database, the rest in memory --------------------------------------

def mixed(g, fam=None, wp=0.15, **k):
  f = fam or g.choice([leaf, comp, lst, dist, change, nested, mh, prepost, diversity, opcomp, near_twins, jackknife, jk_list, beside])
  how = {"mode": "mixed"}
  if f is jackknife:
    k.setdefault("conf", 0.4)
  if f is jackknife:
    if g.chance(0.6):
      how["batch_size"] = g.choice([1, 2, 3, 10])
  return sql_of(g, f, wp, how, **k)


def mixed_bootstrap(g, op=None, wp=0.15):
  """Resampled in the database, a batch of replicates at a time."""
  s = sql_bootstrap(g, op, wp)
  s["how"].update(mode="mixed")
  if g.chance(0.8):
    s["how"]["batch_size"] = g.choice([1, 2, 3, s["tree"]["n"], 50])
  return dict(s, cls="mixed:" + s["cls"])


def mixed_draws(g, op, unit=True, opt=True, split_=False, n=8, reps=600):
  s = sql_draws(g, op, unit, opt, split_, n, reps)
  s["how"] = {"mode": "mixed", "batch_size": g.choice([50, 100, 170])}
  return s


# ---- sessions -------------------------------------------------------------------------

RESAMPLE = ("Jackknife", "Bootstrap", "Poisson")
NUMS = ["x", "y", "z", "p", "w"]


def nodes(t, path=()):
  yield path, t
  if t["op"] == "Model":                               # its list is not a part of its own
    for i, k in enumerate(t["kids"][0]["kids"]):
      yield from nodes(k, path + (0, i))
    return
  for i, k in enumerate(t.get("kids", [])):
    yield from nodes(k, path + (i,))


def vary(g, tb, tree, free=("g",), shape=True, extra=False):
  """The same definition but for one thing. What is kept positive stays positive."""
  tree = json.loads(json.dumps(tree))
  spots = [(p, t) for p, t in nodes(tree) if t["op"] not in ("Const", "Ref")]
  if not spots:
    return tree
  path, t = g.choice(spots)
  if t.get("brittle"):
    t["var"] = g.choice(["x", "y", "z"])
    return tree
  positive = t.get("var") in ("p", "w") and len(path) > 0
  can = []
  def opt(f):
    can.append(f)
  def put(k, v):
    return lambda: t.__setitem__(k, v)
  op = t["op"]
  if op not in ("Raw",) and shape:
    opt(lambda: t.__setitem__("where", t["where"][1:] if t["where"] and g.chance(0.6) else t["where"] + [g.cond(tb)]))
  if op in LEAVES:
    if op != "Correlation":
      opt(put("var", g.choice(["p", "w"] if positive or op == "CV" or t.get("weight") else ["x", "y", "z", "p"])))
  swaps = {"Sum": ["Max", "Min"], "Max": ["Sum", "Min"], "Min": ["Max"], "Variance": ["StandardDeviation"],
           "StandardDeviation": ["Variance"], "Distribution": [], "Percent": ["Absolute"] if shape else [], "Absolute": [],
           "HHI": ["Entropy"], "Entropy": ["HHI"], "PrePost": ["CUPED"], "CUPED": ["PrePost"],
           "Bootstrap": ["Poisson"], "Poisson": ["Bootstrap"]}.get(op, [])
  if swaps:
    opt(lambda: t.__setitem__("op", g.choice(swaps)))
  def other(vals, old):
    return g.choice([v for v in vals if v != old] or [old])
  def flip(k):
    opt(lambda: t.__setitem__(k, not t[k]))
  def weights(k):
    opt(lambda: t.__setitem__(k, other(["", "w", "p"], t[k])))
  if op == "Count":
    flip("distinct")
  elif op == "Mean":
    weights("weight")
  elif op == "Dot":
    flip("normalize")
    opt(put("var2", g.choice(["x", "y", "z", "w"])))
  elif op in ("Variance", "StandardDeviation"):
    flip("unbiased")
    weights("weight")
  elif op == "CV":
    flip("unbiased")
  elif op == "Cov":
    flip("bias")
    weights("weight")
    weights("fweight")
    opt(lambda: t.__setitem__("ddof", other([-1, 0, 1, 2], t["ddof"])))
    opt(put("var2", g.choice(["x", "y", "z", "w"])))
  elif op == "Correlation":
    if not t["weight"]:
      opt(lambda: t.__setitem__("method", other(["pearson", "spearman", "kendall"], t["method"])))
    else:
      opt(lambda: t.__setitem__("weight", other(["w", "p"], t["weight"])))
  elif op == "Quantile":
    if not t["weight"]:
      opt(lambda: t.__setitem__("interp", other(["linear", "lower", "higher", "midpoint", "nearest"], t["interp"])))
    if t["single"]:
      opt(lambda: t.__setitem__("q", [other(["0", "1/4", "1/2", "3/4", "1"], t["q"][0])]))
    if t["interp"] == "linear":
      opt(lambda: t.__setitem__("weight", other([a for a in ["", "w", "p"] if a != t["var"]], t["weight"])))
  elif op == "Nth":
    opt(lambda: t.__setitem__("n", other([0, 1, 2, 3], t["n"])))
    flip("asc")
    flip("dropna")
  elif op == "Comp" and not t.get("ratio"):
    if t["o"] in "+-*":
      opt(lambda: t.__setitem__("o", other("+-*", t["o"])))
      opt(lambda: t["kids"].reverse())
    for k in t["kids"]:
      if k["op"] == "Const":
        opt(lambda k=k: k.__setitem__("v", other(["1", "2", "3", "-1", "-2", "1/2"] if t["o"] != "**" else ["1", "2", "3"], k["v"])))
  elif op == "Cumulative":
    flip("asc")
    opt(lambda: t.__setitem__("order", []))
  elif op in ("Percent", "Absolute", "MH", "PrePost", "CUPED"):
    flip("incl")
    opt(lambda: t.__setitem__("base", g.base(tb, t["cond"])))
    opt(lambda: t.__setitem__("base", g.base(tb, t["cond"])))
    if op == "MH":
      opt(lambda: t.update(cond=t["strata"], strata=t["cond"], base=g.base(tb, t["strata"]),
                           basekinds=[tb["kinds"][c] for c in t["strata"]]))
  elif op == "TopK":
    opt(lambda: t.__setitem__("k", other([1, 2, 3], t["k"])))
  elif op == "Nxx":
    opt(lambda: t.__setitem__("share", other(["1/10", "1/2", "3/4", "1"], t["share"])))
  if op in ("Distribution", "Cumulative", "HHI", "Entropy", "TopK", "Nxx") and shape and len(free) > 1:
    opt(lambda: t.__setitem__("over", [other(list(free), t["over"][0])]))
  if op in RESAMPLE:
    opt(lambda: t.__setitem__("unit", other(["u", "h"], t["unit"])))
    opt(lambda: t.__setitem__("conf", other(["", "1/2", "9/10"], t["conf"])))
    flip("opt")
    if op != "Jackknife":
      opt(lambda: t.__setitem__("n", other([3, 4, 12], t["n"])))
  if op == "List" and len(t["kids"]) > 1:
    opt(lambda: t["kids"].reverse())
    opt(lambda: t["kids"].pop())
  if op == "Model":
    flip("icept")
    if t["kind"] in ("Ridge", "Lasso", "ElasticNet"):
      opt(lambda: t.__setitem__("alpha", other(["1/10", "1/2", "3"], t["alpha"])))
    if t["kind"] == "ElasticNet":
      opt(lambda: t.__setitem__("ratio", other(["1/4", "1/2", "9/10"], t["ratio"])))
    if t["kind"] in ("Lasso", "ElasticNet"):
      flip("positive")
    if extra and t["kind"] in ("Lasso", "ElasticNet", "Logistic", "Ridge"):   # nothing that the spec knows
      more = {"Ridge": [{}, {"solver": "cholesky"}, {"solver": "lsqr", "max_iter": 1}],
               "Logistic": [{}, {"class_weight": "balanced"}, {"max_iter": 1}, {"class_weight": {0: 1, 1: 3}}]}.get(
                   t["kind"], [{}, {"max_iter": 1}, {"tol": 10.0, "max_iter": 1}, {"selection": "random", "random_state": 1}])
      opt(lambda: t.__setitem__("extra", other(more, t.get("extra", {}))))
    if t["kind"] == "Logistic":
      opt(lambda: t.__setitem__("c", other(["1/2", "1", "5"], t["c"])))
      opt(lambda: t.__setitem__("penalty", other(["", "l2"], t["penalty"])))
    else:
      flip("norm")
      opt(lambda: t.update(kind=other(["OLS", "Ridge", "Lasso", "ElasticNet"], t["kind"]), extra={}, positive=False))
      if shape and t["kids"][0]["kids"][1]["op"] != "List":
        opt(lambda: t["kids"][0]["kids"].reverse())
    if shape and len(t["by"]) == 1:
      opt(lambda: t.__setitem__("by", other([["u"], ["t"], ["u", "h"]], t["by"])))
  g.choice(can)() if can else None
  return tree


def other_table(g, tb):
  """Another table with the same columns and labels."""
  t = json.loads(json.dumps(tb))
  rows = t["rows"]
  for c in rows[0]:
    vals = [r[c] for r in rows]
    g.shuffle(vals)
    for r, v in zip(rows, vals):
      r[c] = v
  t["rows"] = rows[: max(4, len(rows) - g.randint(0, 3))]
  for c in t["ord"]:
    seen = {r[c] for r in t["rows"]}
    t["ord"][c] = [v for v in t["ord"][c] if v in seen]
  return t


def resolve(t, defs):
  """A tree without references."""
  if t["op"] == "Ref":
    return resolve(defs[t["i"]], defs)
  return dict(t, kids=[resolve(k, defs) for k in t["kids"]]) if "kids" in t else t


def any_in(t, p):
  return p(t) or any(any_in(k, p) for k in t.get("kids", []))


def random_parts(t):
  return [t] if t["op"] in ("Bootstrap", "Poisson") else [a for k in t.get("kids", []) for a in random_parts(k)]


def width(t):
  """Whether a tree is one column without index of its own."""
  return not any_in(t, lambda k: k["op"] in RESAMPLE + ("List", "Raw", "Model", "Percent", "Absolute", "MH", "PrePost", "CUPED", "Distribution",
                                                        "Cumulative") or (k["op"] == "Quantile" and not k["single"]))


def derive(g, tb, defs, wp=0.15, refs=True):
  """A metric built from the given ones, or from its own."""
  nums = [i for i, d in enumerate(defs) if width(resolve(d, defs))]
  def kid(pos=False):
    if pos:
      return g.positive_leaf(tb)
    if refs and g.chance(0.65) and nums:
      return {"op": "Ref", "i": g.choice(nums)}
    return g.leaf(tb, wp=wp)
  where = lambda: g.where(tb, wp)
  o = g.choice(["List", "List", "Comp", "Percent", "Absolute", "Distribution", "Cumulative", "HHI", "Jackknife", "Jackknife",
                "Raw", "MH", "CUPED", "Bootstrap", "Poisson", "Model", "Slow"])
  if o == "Model":
    kids = [kid(), kid() if g.chance(0.5) else {"op": "List", "where": [], "kids": [kid(), g.leaf(tb, wp=0, kind="Sum")]}]
    d = dict(model_tree(g, tb, g.choice(["OLS", "Ridge", "Lasso"]), wp, ["t"]), kids=[{"op": "List", "where": [], "kids": kids}])
    d.pop("name", None)
  elif o == "List":
    kids = [kid() for _ in range(g.randint(1, 3))]
    d = {"op": "List", "where": where(), "kids": kids}
  elif o == "Comp":
    d = {"op": "Comp", "o": g.choice("+-*"), "where": where(), "kids": [kid(), kid()]}
  elif o in ("Percent", "Absolute"):
    d = {"op": o, "cond": ["g"], "base": g.base(tb, ["g"]), "basekinds": [tb["kinds"]["g"]], "incl": g.chance(0.3), "where": where(),
         "kids": [kid(o == "Percent")]}
  elif o in ("Distribution", "Cumulative"):
    d = g.dist(tb, ["g"], wp, op=o, child=kid(True))
    d["byval"] = False
  elif o == "HHI":
    d = g.diversity(tb, g.choice(["HHI", "Entropy", "TopK", "Nxx"]), 0, 0, ["g"], child=kid(True))
  elif o == "Slow":
    d = {"op": o, "where": where(), "kids": [dict(g.leaf(tb), where=[])]}
  elif o == "Raw":
    d = {"op": o, "over": ["g"], "where": [], "kids": [kid()]}
  elif o == "MH":
    d = g.mh(tb, ["g", "h"], wp)
  elif o == "CUPED":
    d = g.prepost(tb, ["g"], 0, op=g.choice(["PrePost", "CUPED"]))
  else:
    pool = [i for i, a in enumerate(defs) if not any_in(resolve(a, defs), lambda t: t["op"] in RESAMPLE)]
    d = {"op": o, "unit": g.choice(["u", "u", "h"]), "n": g.choice([4, 12]), "conf": g.choice(["", "", "9/10"]), "where": where(),
         "opt": g.chance(0.7), "kids": [{"op": "Ref", "i": g.choice(pool)} if refs and pool and g.chance(0.7) else kid()]}
  return d if sound(d, defs) else derive(g, tb, defs, wp, refs)


def sound(d, defs):
  """Whether what d gives is specified."""
  full = resolve(d, defs)
  return not (clash(full, []) or any_in(full, lambda t: t["op"] in RESAMPLE and any_in(t, patchy)) or
              len(random_parts(full)) > 1)      # the second depends on how much the first has drawn


def definitions(g, tb, n, wp=0.15, refs=True, twin=0.4):
  """Metrics some of which are built from others, or differ from others in one thing only."""
  defs = [{"op": "Sum", "var": g.choice(["x", "y"]), "where": [], "brittle": True}] if g.chance(0.6) else []
  for _ in range(g.randint(1, 2)):
    defs.append(g.leaf(tb, wp=wp, kind=g.choice([None, "Nth", "Quantile", "Cov"])) if g.chance(0.6) else g.comp(tb, 1, wp))
  while len(defs) < n:
    if g.chance(twin):
      d = vary(g, tb, g.choice(defs))
      if not sound(d, defs):
        continue
    else:
      d = derive(g, tb, defs, wp, refs)
    defs.append(d)
  return defs


def clash(t, dims):
  """Whether a part of the tree is over columns which the data is split by already."""
  own = list(t.get("over", [])) + list(t.get("cond", [])) + list(t.get("strata", []))
  return bool(set(own) & set(dims)) or any(clash(k, dims + own) for k in t.get("kids", []))


def patchy(t):
  """Whether a ratio without baseline takes the other ones with it."""
  return t["op"] == "MH" and t["kids"][0]["op"] == "List" and any(
      a["where"] for k in t["kids"][0]["kids"] for _, a in nodes(k) if "where" in a)


KEYS = ["k1", "k2", -1, -2, 0, ""]


def session(g, mode=None, nsteps=None, wp=0.15):
  """A history of computations with a few objects, caches and tables."""
  mode = mode or g.choice(["cache", "cache", "both", "clean"])
  tb = g.table(nrows=g.randint(8, 14), card=2, nunits=3)
  tables = [tb, other_table(g, tb)]
  defs = definitions(g, tb, g.randint(3, 5), wp)
  trees = [resolve(d, defs) for d in defs]
  if any(ambiguous(t) for t in trees):
    return session(g, mode, nsteps, wp)
  keys = g.sample(KEYS, 2) if g.chance(0.6) else g.sample([-1, -2], 2)
  splits = [[], ["s"], ["s"]] if g.chance(0.7) else [[], ["s", "r"], ["s", "r"], ["r", "s"], ["r"]]
  steps, bound = [], {}
  for _ in range(nsteps or g.randint(3, 9)):
    m = g.randint(0, len(defs) - 1)
    if steps and g.chance(0.25):
      m = steps[-1]["m"]
    st = {"m": m, "t": g.randint(0, 1), "sp": g.choice(splits), "tree": trees[m],
          "drawn": bool(random_parts(trees[m]))}
    if mode == "cache" or (mode == "both" and g.chance(0.6)):
      st["cache"], st["key"] = g.choice("CCCD"), g.choice(keys)
      st["t"] = bound.setdefault((st["cache"], st["key"]), st["t"])
    else:
      if brittle_ok(trees[m]) and g.chance(0.5):
        st["trip"] = g.choice([1, 1, 2, 3, 5])
      if g.chance(0.15):                     # a cache without a key or a key without a cache
        st.update(g.choice([{"cache": "C"}, {"key": keys[0]}]))
    if g.chance(0.3):
      st["spoil"] = True
    if g.chance(0.25):
      st["temp"] = True                    # an object only for this
    steps.append(st)
  return {"kind": "session", "cls": "session:" + mode, "tables": tables, "defs": defs, "steps": steps}


def sql_session(g, mode=None, wp=0.15):
  """A history of computations in a database, or with the leaves in the database, with caches."""
  while True:
    s = session(g, "cache", wp=wp)
    trees = [resolve(d, s["defs"]) for d in s["defs"]]
    if any(ops_in(t) & {"Raw", "Model", "Bootstrap", "Poisson", "Slow"} for t in trees):
      continue
    for tb in s["tables"]:
      nomissing({"tb": tb})
      tb["cat"] = {}
    for t in trees + s["defs"] + [st["tree"] for st in s["steps"]]:
      sqlable(t)
      for _, n in nodes(t):
        n.pop("brittle", None)
    ev = lambda st, tb: {"tree": st["tree"], "tb": tb, "sp": st["sp"]}
    if any(twins(t) for t in trees) or any(emptied(ev(st, s["tables"][st["t"]])) for st in s["steps"]):
      continue
    mode = mode or g.choice(["mixed", "mixed", "sql"])
    for st in s["steps"]:
      st["how"] = {"mode": "mixed"} if mode == "mixed" else {}
      st.pop("trip", None)
    return dict(s, cls="session:" + mode)


def brittle_ok(t):
  """Whether t may be made to fail: what a list inside does then is not specified."""
  return any_in(t, lambda k: bool(k.get("brittle"))) and not any(
      any_in(k, lambda a: a["op"] == "List") for k in t.get("kids", []))


# ---- bindings of the histories of Session.tla ------------------------------------------------

def binding(g, brittle=None, wp=0.15):
  """Concrete metrics, tables and keys for the names of Session.tla."""
  tb = g.table(nrows=g.randint(8, 14), card=2, nunits=3)
  tables = [tb, other_table(g, tb)]
  if brittle if brittle is not None else g.chance(0.5):
    a = {"op": "Sum", "var": g.choice(["x", "y"]), "where": [], "brittle": True}
  else:
    a = g.leaf(tb, wp=wp, kind=g.choice([None, "Nth", "Quantile", "Cov"])) if g.chance(0.6) else g.comp(tb, 1, wp)
  b = vary(g, tb, a)
  p = derive(g, tb, [a], wp)
  trees = [a, a, b, resolve(p, [a])]
  if a == b or not any_in(p, lambda t: t["op"] == "Ref") or any(ambiguous(t) for t in trees) or not sound(b, []):
    return binding(g, brittle, wp)
  return {"tables": tables, "defs": [a, dict(a), b, p], "trees": trees, "brittle": bool(a.get("brittle")) and brittle_ok(trees[3]),
          "keys": dict(zip("kl", g.sample(KEYS, 2)))}


def swallows(t):
  """Whether t goes on without what failed: what it gives then may be cached."""
  return t["op"] in RESAMPLE + ("List",)


NAMES = {"A": 0, "A2": 1, "B": 2, "P": 3, "TA": 0, "TB": 2, "Q": 3}


def bind(b, hist, spoil=False):
  """The session which a history of Session.tla stands for."""
  steps = []
  for step in hist.split(";"):
    o, t, sp, c, trip = step.split(",")
    m = NAMES[o]
    st = {"m": m, "t": int(t), "sp": ["s"] if sp else [], "tree": b["trees"][m], "drawn": bool(random_parts(b["trees"][m]))}
    if c:
      st["cache"], st["key"] = c[0], b["keys"][c[1]]
    if trip and b["brittle"] and not (c and any_in(st["tree"], swallows)):
      st["trip"] = 1
    if o in ("TA", "TB", "Q"):
      st["temp"] = True
    if spoil:
      st["spoil"] = True
    steps.append(st)
  return {"kind": "session", "cls": "history", "tables": b["tables"], "defs": b["defs"], "steps": steps}


def answers(b):
  """What the metrics of a binding give on their own."""
  return [{"kind": "eval", "cls": "answer", "tb": tb, "tree": b["trees"][m], "sp": sp}
          for m in (0, 2, 3) if not random_parts(b["trees"][m]) for tb in b["tables"] for sp in ([], ["s"])]


# ---- equality of definitions -------------------------------------------------------------------

def reshape(g, t):
  """Another arrangement of the same parts."""
  t = json.loads(json.dumps(t))
  spots = [a for _, a in nodes(t) if a["op"] == "Comp" and not a.get("ratio")]
  if spots and g.chance(0.7):
    a = g.choice(spots)
    x, y = a["kids"]
    if x["op"] == "Comp" and g.chance(0.7):            # (p o q) o y -> p o (q o y)
      a["kids"] = [x["kids"][0], dict(x, o=a["o"], kids=[x["kids"][1], y])]
      a["o"] = x["o"]
      return t
    a["kids"] = [y, x]
    return t
  if t["op"] == "List" and len(t["kids"]) > 1:
    return dict(t, kids=t["kids"][::-1])
  if t["where"]:                                       # the filter on the parts instead
    return dict(t, where=[], kids=[dict(k, where=k["where"] + t["where"]) if "where" in k else k for k in t["kids"]]) if t.get("kids") else t
  return {"op": "List", "where": [], "kids": [t]} if width(t) else t


def equality(g, wp=0.25):
  r = g.random()
  if r < 0.2:
    tb = g.table(nrows=g.randint(8, 14), card=2, nunits=3)
    d = definitions(g, tb, g.randint(2, 4), wp)
    t, sp = resolve(d[-1], d), g.choice([[], ["s"]])
  else:
    s = jackknife(g, wp) if r < 0.3 else g.choice([leaf, leaf, comp, comp, lst, dist, change, nested, mh, prepost, diversity])(g, wp=wp)
    tb, t, sp = s["tb"], s["tree"], s["sp"]
  free = [d for d in ("g", "h", "r") if d not in sp and d in tb["kinds"]]
  trees = [t, vary(g, tb, t, free), vary(g, tb, t, free)]
  trees.append(g.choice([lambda: reshape(g, t), lambda: vary(g, tb, trees[1], free), lambda: t])())
  if len({a.get("opt") for a in trees}) > 1:   # how to compute isn't what; where the spec leaves it open the two may differ
    for a in trees:
      if "opt" in a:
        a["opt"] = trees[0].get("opt", True)
  if any(bad_def(a, sp) or any_in(a, lambda k: bool(k.get("brittle")) or filtered_number(k)) for a in trees):
    return equality(g, wp)
  return {"kind": "equal", "cls": "equal:" + t["op"], "trees": trees, "tables": [tb, other_table(g, tb)],
          "cases": [{"t": 0, "sp": sp}, {"t": 1, "sp": sp}, {"t": 0, "sp": []}]}


def filtered_number(t):
  """Arithmetic on numbers alone is done by Python and has no filter."""
  def number(k):
    return k["op"] == "Const" or (k["op"] == "Comp" and all(map(number, k["kids"])))
  return t["op"] == "Comp" and bool(t["where"]) and number(t)


def equality_models(g, wp=0.2):
  while True:
    if g.chance(0.65):
      s = model(g, wp=wp)
      if s["tree"].get("penalty") in ("l1", "elasticnet"):
        s["tree"]["penalty"] = "l2"
    else:
      s = model_nested(g, wp)
    tb, t, sp = s["tb"], s["tree"], s["sp"]
    trees = [t, vary(g, tb, t, [], extra=True), vary(g, tb, t, [], extra=True)]
    trees.append(vary(g, tb, trees[1], [], extra=True) if g.chance(0.6) else t)
    for a in trees:
      if "opt" in a:
        a["opt"] = t["opt"]
    if not any(bad_def(a, sp) for a in trees):
      return {"kind": "equal", "cls": "equal:Model", "trees": trees, "tables": [tb, other_table(g, tb)],
              "cases": [{"t": 0, "sp": sp}, {"t": 1, "sp": sp}]}


def bad_def(t, sp):
  return clash(t, sp) or not sound(t, []) or ambiguous(t)


# ---- models -----------------------------------------------------------------------------

def model_tree(g, tb, kind=None, wp=0.1, by=None, most=3):
  kind = kind or g.choice(["OLS", "OLS", "Ridge", "Ridge", "Lasso", "Lasso", "ElasticNet", "ElasticNet", "Logistic"])
  cols = ["x", "y", "z", "w", "p"]
  g.shuffle(cols)
  k = g.choice([1, 1, 2, 2, 3][:most + 2])
  def feature(c):
    r = g.random()
    a = {"op": g.choice(["Sum", "Mean", "Max", "Min"]), "var": c, "where": g.where(tb, wp * 0.4)}
    if a["op"] in ("Sum", "Mean"):
      a["weight"] = "" if a["op"] == "Mean" else ""
    if r < 0.12:
      return {"op": "Comp", "o": g.choice("+-*"), "where": [], "kids": [a, {"op": "Count", "var": "x", "distinct": False, "where": []}]}
    if r < 0.2:
      return {"op": "Comp", "o": g.choice("+*"), "where": [], "kids": [a, {"op": "Const", "v": g.choice(["2", "-1", "1/2"])}]}
    return a
  xs = [feature(c) for c in cols[:k]]
  y = feature(cols[k])
  if kind == "Logistic":
    y = {"op": g.choice(["Max", "Min"]), "var": "b", "where": []}
  x = {"op": "List", "where": g.where(tb, wp * 0.4), "kids": xs} if k > 1 or g.chance(0.3) else xs[0]
  t = {"op": "Model", "kind": kind, "by": by or ["u"], "alpha": g.choice(["1/10", "1/2", "1", "3"]), "ratio": g.choice(["1/4", "1/2", "9/10"]),
       "icept": g.chance(0.75), "norm": g.chance(0.35) and kind != "Logistic", "positive": kind in ("Lasso", "ElasticNet") and g.chance(0.2),
       "where": g.where(tb, wp), "aslist": g.chance(0.7),
       "kids": [{"op": "List", "where": [], "kids": [y, x]}]}
  if kind == "Logistic":
    t.update(penalty=g.choice(["", "l2", "l2", "l1", "elasticnet"]), c=g.choice(["1/2", "1", "5"]))
  if g.chance(0.15):
    t["name"] = g.choice(["fit", "my model"])
  return t


def labelled(g, tb, labels):
  """Adds a column of labels."""
  for r in tb["rows"]:
    r["b"] = g.choice(labels)


def small(a):
  """A feature which iterations can cope with."""
  while a["op"] == "Comp":
    a = a["kids"][0]
  return {"op": "Comp", "o": "*", "where": [], "kids": [dict(a, op="Mean" if a["op"] == "Sum" else a["op"]), {"op": "Const", "v": "1/8"}]}


def model(g, kind=None, wp=0.1, how=None):
  sp = g.choice([[], [], ["s"], ["s", "r"]])
  by = g.choice([["u"], ["u"], ["t"], ["u", "h"]])
  dims = ("g", "s", "h") + (("r",) if "r" in sp else ())
  tb = g.table(nrows=g.randint(8, 14) * (1 + len(sp)), nunits=g.randint(5, 8), dims=dims, card=2)
  kinds = ["0", "1"]
  if g.chance(0.4):
    kinds = g.choice([["1", "2"], ["-1", "1"], ["0", "1", "2"]] if not how else [["1", "2"], ["-1", "1"]])
  labelled(g, tb, kinds)
  t = model_tree(g, tb, kind, wp, by)
  if t["kind"] == "Logistic":
    sql = (how or {}).get("mode") == "magic"
    if sql and not t["penalty"]:           # iterations may run away when the classes can be separated
      t["penalty"] = "l2"
    if sql:                                # iterations are queries
      t.update(tol=1e-6, iter=400, c=g.choice(["1/2", "1"]))
    if t["penalty"] in ("l1", "elasticnet") and not sql:
      t["icept"] = False                   # saga stops before the intercept is found
      t["stalls"] = True
    if sql or t["penalty"] in ("l1", "elasticnet"):
      x = t["kids"][0]["kids"]
      x[1] = dict(x[1], kids=[small(a) for a in x[1]["kids"][:2]]) if x[1]["op"] == "List" else small(x[1])
  s = {"kind": "model", "cls": "model:" + t["kind"], "tb": tb, "tree": t, "sp": sp}
  if how:
    how = dict(how, table=g.choice(["T", "T", "query", "object", "columns", "with", "marked", "renamed", "pieces", "clash"]))
  return dict(s, how=how) if how else s


def model_nested(g, wp=0.1, how=None):
  """Models within other things."""
  r = g.random()
  sp = g.choice([[], [], ["s"]])
  tb = g.table(nrows=g.randint(9, 14) * (1 + len(sp)), nunits=g.randint(5, 7), dims=("g", "s", "h"), card=2)
  kinds = ["OLS", "Ridge", "Ridge", "Lasso", "ElasticNet"]
  by = g.choice([["u"], ["u"], ["t"]])
  a = model_tree(g, tb, g.choice(kinds), wp, by, 2)
  if r < 0.35:
    t = {"op": "Jackknife", "unit": g.choice(["u", "h"]), "conf": g.choice(["", "", "9/10"]), "where": g.where(tb, wp), "opt": g.chance(0.7),
         "kids": [a]}
  elif r < 0.55:
    kids = [a, model_tree(g, tb, g.choice(kinds), wp, by, 2)] + ([g.leaf(tb, wp=wp)] if g.chance(0.4) else [])
    t = {"op": "List", "where": g.where(tb, wp), "kids": kids}
  elif r < 0.8:
    t = {"op": g.choice(["Percent", "Absolute"]), "cond": ["g"], "base": g.base(tb, ["g"]), "basekinds": [tb["kinds"]["g"]],
         "incl": g.chance(0.3), "where": g.where(tb, wp), "kids": [a]}
  else:
    t = {"op": "Comp", "o": g.choice("+-*"), "where": g.where(tb, wp), "kids": [a, {"op": "Const", "v": g.choice(["2", "-3"])}]}
  s = ev("model:" + t["op"], tb, t, sp)
  if ambiguous(t):
    return model_nested(g, wp, how)
  return s


# ---- building queries ------------------------------------------------------------------

EXPRS = ["x", "y", "x + y", "SUM(x)", "MAX(y)"]
RAWS = ["a", "a_1", "a 1", "b", "a_2", "x", "sum(x)", "1a"]


def titles(g):
  ops, made, b = [], 0, False
  exprs, raws = g.sample(EXPRS, g.randint(2, 4)), g.sample(RAWS, g.randint(1, 4)) + ([""] if g.chance(0.3) else [])
  for _ in range(g.randint(3, 10)):
    r = g.random()
    if r < 0.15 and made:
      ops.append(["R", g.randint(0, made - 1)])
    elif r < 0.25 and b:
      ops.append(["J"])
      b = False
    elif r < 0.32:
      ops.append(["P"])
    else:
      h = g.choice("AAAB")
      b = b or h == "B"
      ops.append([h, g.choice(exprs), g.choice(raws)])
      made += 1
  return {"kind": "titles", "cls": "titles", "ops": ops}


def arith_tree(g, depth):
  if depth == 0 or g.chance(0.1):
    return {"o": "var", "v": g.choice(["x", "y", "z", "w"])}
  r = g.random()
  if r < 0.12:
    return {"o": "neg", "kids": [arith_tree(g, depth - 1)]}
  if r < 0.2:
    return {"o": "**", "kids": [arith_tree(g, depth - 1), {"o": "const", "v": g.choice(["2", "1/2", "3", "1"])}]}
  kids = [arith_tree(g, depth - 1), arith_tree(g, depth - 1) if g.chance(0.65) else {"o": "const", "v": g.choice(["2", "-3", "1/2", "1", "-1"])}]
  if kids[1]["o"] == "const" and g.chance(0.5):
    kids.reverse()
  return {"o": g.choice("+-*/-/"), "kids": kids}


def columns(g):
  tb = g.table(nrows=g.randint(4, 8), nan=g.choice([0, 0.2]))
  return {"kind": "columns", "cls": "columns", "tb": tb, "exprs": [arith_tree(g, g.randint(1, 4)) for _ in range(6)]}


def or_text(g, c):
  """A condition in one of the ways to write it."""
  import build
  build.SQL = True
  s = build.where_str(c)
  a, b = (build.where_str(c["a"]), build.where_str(c["b"])) if c["c"] in ("or", "and") else (s, s)
  build.SQL = False
  if c["c"] in ("or", "and"):
    o = g.choice([c["c"], c["c"].upper()])
    s = g.choice(["%s %s %s", "(%s) %s (%s)", "(%s)%s(%s)", "%s\n  %s %s", "%s\n%s\n%s", "(%s) %s(%s)"]) % (a, o, b)
  return s


def filters(g):
  tb = g.table(nrows=g.randint(6, 14), card=3)
  if g.chance(0.4):                      # labels which look like operators
    for r in tb["rows"]:
      for d in ("g", "h"):
        if tb["kinds"][d] == "str":
          r[d] = {"a": "a==b", "b": "a=b"}.get(r[d], r[d])
    for d in ("g", "h"):
      tb["ord"][d] = sorted({r[d] for r in tb["rows"]})
  flat = lambda: g.atom(tb) if g.chance(0.4) else {"c": g.choice(["or", "or", "and"]), "a": g.atom(tb), "b": g.atom(tb)}
  conds = [[flat() for _ in range(g.randint(1, 2))] for _ in range(g.randint(1, 3))]
  text = []
  for cs in conds:
    t = [or_text(g, c) for c in cs]
    text.append(t[0] if len(t) == 1 and g.chance(0.5) else t)
  return {"kind": "filters", "cls": "filters", "tb": tb, "conds": conds, "text": text}


def subqueries(g, names=("A", "A_1", "B", "A_2", "NoNameTable"), nest=None):
  tb = g.table(nrows=g.randint(8, 14), card=2, dims=("g", "h"), nunits=3)
  steps = []
  nest = g.chance(0.4) if nest is None else nest
  names = g.sample(list(names), g.randint(1, 3))
  titles_ = g.sample(["p", "p_1", "b", "x", "A", "c"], g.randint(1, 3))
  pool = [g.atom(tb, cols=["g", "h"]) for _ in range(2)]
  for i in range(g.randint(2, 6)):
    ds = g.randint(0, 1) if nest else 0
    mine = [k for k, s in enumerate(steps) if s["ds"] == ds]
    src = g.choice(mine) if mine and g.chance(0.5) else -1
    group = ["g", "h"] if src < 0 else steps[src]["group"]
    group = g.sample(group, g.randint(0, len(group))) if g.chance(0.6) else list(group)
    vals = ["x", "y"] if src < 0 else ["c%d" % j for j in range(len(steps[src]["cols"]))]
    cols = [[g.choice(["SUM", "SUM", "MAX", "COUNT"]), g.choice(vals), g.choice(titles_)] for _ in range(g.randint(1, 3))]
    # (a second column with the same expression is not told of new titles)
    cols = [c for k, c in enumerate(cols) if c[:2] not in [d[:2] for d in cols[:k]]]
    have = ["g", "h"] if src < 0 else steps[src]["group"]
    where = [c for c in pool if set(cond_cols(c)) <= set(have)]
    where = g.sample(where, 1) if where and g.chance(0.4) else []
    steps.append({"ds": ds, "how": g.choice(["merge", "merge", "add"]), "name": g.choice(names), "src": src, "where": where,
                  "group": group, "cols": cols, "apart": g.chance(0.3),
                  "last": [c for c in pool if set(cond_cols(c)) <= set(group) and g.chance(0.3)] + (
                      [{"c": "num", "col": "c%d" % g.randint(0, len(cols) - 1), "o": g.choice(["<", ">="]), "v": str(g.randint(1, 8))}]
                      if g.chance(0.3) else [])})
  s = {"kind": "subqueries", "cls": "subqueries", "tb": tb, "steps": steps}
  inner = [k for k, a in enumerate(steps) if a["ds"] == 1]
  if nest and inner:
    s.update(nest=inner[-1], nestcols=g.chance(0.5))
  return s


def cond_cols(c):
  return [c["col"]] if "col" in c else cond_cols(c["a"]) + (cond_cols(c["b"]) if "b" in c else [])


def texts(g, mode=None):
  fam = g.choice([leaf, comp, lst, dist, change, nested, mh, prepost, diversity, opcomp, near_twins, jackknife])
  s = sql_bootstrap(g) if g.chance(0.15) else sql_of(g, fam)
  s["how"]["table"] = g.choice(["T", "T", "query", "object", "columns", "with", "marked", "renamed", "pieces", "clash", "clash"])
  return dict(s, kind="texts", cls="texts:" + s["cls"].replace("sql:", ""))


# ---- the table of intervals --------------------------------------------------------------

def dyadic(g, lo=-40, hi=40):
  return str(Fraction(g.randint(lo, hi), g.choice([1, 2, 4, 8, 3, 7])))


def display(g, control=None):
  control = control or g.choice(["noexpr", "none", "one", "one", "one", "many", "own"])
  nd = g.choice([0, 1, 1, 2, 2, 3]) if control != "noexpr" else g.choice([0, 1, 1, 2])
  kinds = {"s": [g.choice(["str", "int"]) for _ in range(nd)], "e": g.choice(["str", "str", "int"])}
  pool = lambda k: (["0", "1", "2", "10"] if k == "int" else ["a", "B", "b c", "10"])
  srank = [sorted(g.sample(pool(k), g.randint(1, 3)), key=int if k == "int" else None) for k in kinds["s"]]
  erank = sorted(g.sample(["0", "1", "2", "12", "3"] if kinds["e"] == "int" else ["ctl", "e1", "e10", "e2", "X"], g.randint(2, 4)),
                 key=int if kinds["e"] == "int" else None)
  ms = g.sample(["sum(x)", "CTR", "b", "a", "Value x"], g.randint(1, 3))
  nc = 1 if control == "one" else g.randint(1, max(1, len(erank) // 2))
  ctrls = g.sample(erank, nc) if control in ("one", "many", "own") else []
  of = {e: (e if e in ctrls else g.choice(ctrls)) for e in erank} if ctrls else {}
  auto = bool(ctrls) and g.chance(0.25)
  described = control != "noexpr" and not auto and g.chance(0.35)
  descs = {e: (g.choice(["", "new", "the old one"]) if described else "") for e in erank}
  rng = g.chance(0.2)
  full = g.chance(0.5)
  rows = []
  for s in itertools.product(*srank):
    cvs = {(c, m): dyadic(g, 1) for c in ctrls for m in ms}
    apart = {k: g.choice(["0", "0", "0", "1/2", "1", "3"]) for k in cvs}
    for e in (erank if control != "noexpr" else [""]):
      if not full and g.chance(0.15) or (auto and e in ctrls and g.chance(0.7)):
        continue
      for m in ms:
        if not full and g.chance(0.12):
          continue
        a, b = sorted([Fraction(dyadic(g)) - g.choice([0, 30, -30]) for _ in range(2)])
        r = {"s": list(s), "e": e, "m": m, "v": dyadic(g), "r": str((a + b) / 2), "lo": str(a), "hi": str(b), "c": of.get(e, ""),
             "cv": "nan", "d": descs.get(e, "")}
        if g.chance(0.08) and not rng:
          r["lo"] = r["hi"] = g.choice(["0", "nan"])
        if g.chance(0.08) and not rng:
          r["lo"] = "nan"
        if g.chance(0.08):
          r["r"] = "nan"
        if g.chance(0.08) and not (auto and e in ctrls):
          r["v"] = "nan"
        if e in ctrls:
          r["r"] = g.choice(["nan", "nan", "0"])
          r["lo"], r["hi"] = ("nan", "nan") if g.chance(0.6) else (r["lo"], r["hi"])
        elif ctrls and auto:
          k = (of[e], m)
          r["cv"] = str(Fraction(cvs[k]) + g.choice([0, 1]) * Fraction(apart[k]))
        if rng:
          w = Fraction(r["hi"]) - Fraction(r["lo"]) if "nan" not in (r["lo"], r["hi"], r["r"]) else None
          r["lo"], r["hi"] = ("nan", "nan") if w is None else (str(Fraction(r["r"]) - w / 2), str(Fraction(r["r"]) + w / 2))
        rows.append(r)
  if not any(r["e"] not in ctrls for r in rows):
    return display(g, control)
  g.shuffle(rows)
  show = g.chance(0.6)
  agg = g.chance(0.5)
  fmts = ["absolute", "percent", "pp", "{:.2%}", "{:.3f}"]
  fmt = g.chance(0.6)
  left = sorted({r["m"] for r in rows if show or r["e"] not in ctrls})
  opts = {"show": show, "smv": g.chance(0.5), "auto": auto, "agg": agg, "hide": g.chance(0.5), "desc": g.chance(0.5), "control": control,
          "ctrls": ctrls, "of": of or {"-": "-"}, "flip": g.sample(ms, g.randint(0, len(ms))), "raw": g.chance(0.25), "info": g.chance(0.5),
          "order": g.sample(ms, g.randint(1, len(ms))) if g.chance(0.4) else [],
          "fv": g.choice(fmts) if fmt else "absolute", "fr": g.choice(fmts) if fmt else "absolute", "range": rng, "described": described, "sort": []}
  if opts["order"] and not set(opts["order"]) & set(left):
    opts["order"] = []
  opts["filled"] = "Control" if opts["desc"] else ""
  if g.chance(0.4):
    keys = [str(i + 1) for i in range(nd)] + (["e"] if control != "noexpr" else []) + ["num"]
    for k in g.sample(keys, g.randint(1, min(2, len(keys)))):
      a = {"by": k, "m": "", "asc": g.chance(0.6), "ord": []}
      if k == "num":
        a["by"], a["m"] = g.choice(["Value", "Ratio", "CI_Lower", "CI_Upper"]), g.choice(left)
      elif g.chance(0.4):
        a["ord"] = (lambda l: g.sample(l, len(l)))(erank if k == "e" else srank[int(k) - 1])
      opts["sort"].append(a)
  usual = {"e": "Experiment_Id", "m": "Metric", "v": "Value", "r": "Ratio", "lo": "CI_Lower", "hi": "CI_Upper", "range": "CI_Range",
           "cv": "Control_Value", "d": "Description"}
  odd = {"e": "grp", "m": "metric", "v": "_base_value", "r": "Percent Change", "lo": "Jackknife CI-lower", "hi": "up", "range": "w",
         "cv": "before", "d": "what"}
  names = {k: (usual if g.chance(0.5) else odd)[k] for k in usual}
  names["dims"] = (["Dim_%d" % (i + 1) for i in range(nd)] if g.chance(0.4) else g.sample(["country", "os", "a dim"], nd))
  return {"kind": "display", "cls": "display:" + control, "in": rows, "opts": opts, "names": names, "kinds": kinds,
          "rank": {"s": srank, "e": erank, "m": sorted(ms)}, "dimno": dict({"0": 0}, **{str(i + 1): i + 1 for i in range(nd)}), "ndims": nd,
          "cat": g.chance(0.3), "empty": g.choice(["", "None", "nan"]), "index": g.chance(0.3), "listed": g.chance(0.5),
          "fmt": fmt, "full": g.chance(0.5)}


def results(g, wp=0.1):
  """The table which shows a result with intervals."""
  ch = g.chance(0.7)
  f = g.choice([change, change, change, prepost] if ch else [leaf, comp, lst, dist, mh, diversity, nested])
  s = jackknife(g, wp, [f], conf=1.0)
  t = s["tree"]
  kid = t["kids"][0]
  if kid["op"] in ("Percent", "Absolute") and g.chance(0.5):
    kid["kids"] = [{"op": "List", "where": [], "kids": [kid["kids"][0], g.leaf(s["tb"], kind=g.choice(["Sum", "Count", "Max"]), wp=wp)]}]
  if g.chance(0.4):
    t.update(op=g.choice(["Bootstrap", "Poisson"]), unit=g.choice(["", "u", "u"]), n=g.randint(3, 8))
  if ambiguous(t):
    return results(g, wp)
  cond = t["kids"][0]["cond"] if t["kids"][0]["op"] in ("Percent", "Absolute", "PrePost", "CUPED") else []
  yn = lambda p: g.choice(["yes", "no"]) if g.chance(p) else "default"
  fmts = ["absolute", "percent", "pp", "{:.2%}", "{:.3f}"]
  opts = {"agg": yn(0.5), "show": yn(0.4), "hide": yn(0.3), "info": yn(0.5), "desc": yn(0.4), "smv": yn(0.4), "raw": g.chance(0.3), "both": g.chance(0.3),
          "fv": g.choice(fmts), "fr": g.choice(fmts), "flip": [g.randint(0, 9) for _ in range(g.choice([0, 0, 1, 2]))],
          "order": [g.randint(0, 9) for _ in range(g.choice([0, 0, 1, 2]))], "sort": [], "of": {"-": "-"}}
  if g.chance(0.4):
    for k in g.sample(["dim", "e", "Value", "Ratio", "CI_Lower", "CI_Upper"], g.randint(1, 2)):
      if k == "e" and not cond:
        continue
      opts["sort"].append({"by": k, "m": g.randint(0, 9), "asc": g.chance(0.6)})
  return {"kind": "results", "cls": "results:" + s["cls"].split(":")[1], "tb": s["tb"], "tree": t, "sp": s["sp"], "cond": cond,
          "base": t["kids"][0].get("base", []), "opts": opts, "fmt": g.chance(0.5), "melted": g.chance(0.4), "again": g.choice([0, 0, 0, 1]),
          "seed": g.randint(1, 10**6)}
