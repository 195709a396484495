"""Replays the histories of Titles.tla and Subqueries.tla on the classes that write queries."""
import os, re
import env, tlc

FLAWS = {"Titles": ("clash", "once", "again", "deaf", "takes", "left"),
         "Subqueries": ("unlike", "own", "over", "lost", "stuck", "chain")}
SMALL = {"Titles": {"MaxLen": 4, "Exprs": ["x", "y", "z"], "Raws": ["a", "a_1"]},
         "Subqueries": {"MaxLen": 3, "Stores": [1, 2], "Hows": ["add", "merge"], "Names": ["A", "A_1"], "Shapes": [1, 2], "Cols": [1, 2]}}
INVARIANTS = {"Titles": "INVARIANTS Once Unique Points\nPROPERTY Kept", "Subqueries": "INVARIANTS Means OneEach Scoped"}


def lit(v):
  if isinstance(v, list):
    return "{%s}" % ", ".join(map(lit, v))
  return str(v).upper() if isinstance(v, bool) else str(v) if isinstance(v, int) else '"%s"' % v


def config(module, consts, flaw="", tell=True):
  path = os.path.join(env.scratch(), "%s_%d.cfg" % (module, config.n))
  config.n += 1
  with open(path, "w") as f:
    f.write("SPECIFICATION Spec\n%s\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" % INVARIANTS[module])
    for k, v in dict(consts, Flaw=flaw, Tell=tell).items():
      f.write("%s = %s\n" % (k, lit(v)))
  return path


config.n = 0


def histories(c, module, **consts):
  out = c.model(module, config(module, dict(SMALL[module], **consts)))
  hs = sorted(set(re.findall(r'^"H\|(.*)"$', out, re.M)))
  n = c.notes.setdefault("histories", {})
  n[module] = n.get(module, 0) + len(hs)
  return hs


def flaws(c):
  for module, fs in FLAWS.items():
    for f in fs:
      k = dict(SMALL[module])
      if f == "chain":
        k.update(MaxLen=4, Hows=["add"], Cols=[1])
      rc, out = tlc.run(module, config(module, k, f, False))
      if "is violated" not in out:
        raise tlc.MachineryError("the model %s does not notice the flaw %s" % (module, f))
  c.notes["flaws_noticed"] = {m: list(fs) for m, fs in FLAWS.items()}


# ---- histories as scenarios -----------------------------------------------------------

def titles(g, hist):
  exprs = dict(zip("xyz", g.sample(["x", "y", "x + y", "SUM(x)", "MAX(y)"], 3)))
  raws = g.choice([{"a": "a", "a_1": "a_1"}, {"a": "a b", "a_1": "a_b"}, {"a": "sum(x)", "a_1": "sum_x"}, {"a": "x", "a_1": "x_1"}])
  ops = []
  for o in hist.split(";"):
    if o == "J":
      ops.append(["J"])
    else:
      h, e, r = o.split(",")
      ops.append([h, exprs[e], raws[r]])
    if g.chance(0.15):
      ops.append(["P"])
  return {"kind": "titles", "cls": "titles:history", "ops": ops}


def subqueries(g, hist):
  tb = g.table(nrows=g.randint(8, 12), card=2, dims=("g", "h"), nunits=3)
  where = g.atom(tb, cols=["g"])
  shapes = g.choice([{"1": (["g", "h"], []), "2": (["g"], [])}, {"1": (["g", "h"], []), "2": (["g", "h"], [where])},
                     {"1": (["g"], [where]), "2": (["g"], [])}, {"1": (["g"], []), "2": ([], [])}])
  fs = g.sample(["SUM", "MAX", "COUNT", "MIN"], 2)
  title = g.choice([{"1": "v", "2": "v"}, {"1": "A", "2": "x"}, {"1": "x", "2": "x_1"}])
  names = g.choice([{"A": "A", "A_1": "A_1"}, {"A": "q", "A_1": "q_1"}, {"A": "A", "A_1": "NoNameTable"}, {"A": "T1", "A_1": "T2"}])
  steps = []
  for o in hist.split(";"):
    ds, how, name, src, shape, col = o.split(",")
    src = int(src) - 1
    group, w = shapes[shape]
    have = ["g", "h"] if src < 0 else steps[src]["group"]
    if not set(group) <= set(have) or (w and "g" not in have):
      group, w = [c for c in group if c in have], [] if "g" not in have else w
    steps.append({"ds": int(ds) - 1, "how": how, "name": names[name], "src": src, "where": list(w), "group": list(group),
                  "cols": [[fs[int(col) - 1], ("x" if col == "1" else "y") if src < 0 else "c0", title[col]]], "apart": g.chance(0.3),
                  "last": []})
  s = {"kind": "subqueries", "cls": "subqueries:history", "tb": tb, "steps": steps}
  inner = [k for k, a in enumerate(steps) if a["ds"] == 1]
  if inner:
    s.update(nest=inner[-1], nestcols=g.chance(0.5))
  return s
