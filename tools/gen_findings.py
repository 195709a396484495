#!/usr/bin/env python3
"""Writes known_findings.json: the defects found, with the scenarios that show them."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []


def table(rows, kinds=None, cat=None, intnum=True):
  labs = [c for c in rows[0] if c in (kinds or {}) or c in ("g", "h", "s", "r", "u")]
  k = {c: (kinds or {}).get(c, "str") for c in labs}
  o = {c: sorted({r[c] for r in rows}, key=(lambda v: v) if k[c] == "str" else int) for c in labs}
  return {"rows": rows, "ord": o, "kinds": k, "cat": cat or {}, "intnum": intnum, "types": {}}


def rows(cols, text):
  cols = cols.split()
  return [dict(zip(cols, l.split())) for l in text.strip().split("\n")]


def ev(tb, tree, sp):
  return {"kind": "eval", "tb": tb, "tree": tree, "sp": sp}


def leaf(op, var, **k):
  return dict({"op": op, "var": var, "where": []}, **k)


def boot(op, rs, kinds, over, metrics, n, seed, partial):
  """A bootstrap scenario by unit u; metrics: trees beside the indicator sums."""
  units = sorted({r["u"] for r in rs})
  for r in rs:
    for j, u in enumerate(units):
      r["e%d" % (j + 1)] = "1" if r["u"] == u else "0"
  ind = ["e%d" % (j + 1) for j in range(len(units))]
  inds = [leaf("Sum", c) for c in ind]
  if over:
    inds = [{"op": "Raw", "over": [over], "where": [], "kids": [k]} for k in inds]
  return {"kind": "boot", "tb": table(rs, kinds), "sp": [], "k": len(ind), "ind": ind, "seed": seed, "partial": partial,
          "tree": {"op": op, "unit": "u", "n": n, "conf": "", "where": [], "opt": True,
                   "kids": [{"op": "List", "where": [], "kids": inds + metrics}]}}


def boot_names(op):
  rs = [{"u": "u%d" % i, "a b": str(i), "a_b": str(10 * i * i)} for i in range(1, 5)]
  return boot(op, rs, {"u": "str"}, None, [leaf("Sum", "a b"), leaf("Sum", "a_b")], 6, 3, op == "Poisson")


def boot_slow():
  rs = [{"u": "u%d" % (i % 4), "g": "ab"[i // 6], "x": str((i * 5) % 7)} for i in range(12)]
  sd = {"op": "StandardDeviation", "var": "x", "where": [], "weight": "", "unbiased": True}
  return boot("Poisson", rs, {"u": "str", "g": "str"}, "g",
              [{"op": "Absolute", "cond": ["g"], "base": ["a"], "basekinds": ["str"], "incl": True, "where": [], "kids": [sd]}],
              20, 5, True)


def fixed(prop, commit, what, scenarios):
  F.append({"id": "F%d" % (len(F) + 1), "property": prop, "status": "fixed", "commit": commit, "what": what,
            "line": "fixed: property=%s %s %s" % (prop, commit, what), "scenarios": scenarios})


def known(prop, what, scenarios):
  F.append({"id": "K%d" % (len(F) + 1), "property": prop, "status": "known", "what": what,
            "line": "known: property=%s %s" % (prop, what), "scenarios": scenarios})


T = table(rows("g h s x y w p", """
a a 1 1 2 1 4
a b 1 2 0 2 5
b a 2 3 1 1 6
b b 2 5 3 2 2
c a 1 4 1 3 1
"""), {"s": "int", "g": "str", "h": "str"})
NONE = [{"c": "num", "col": "p", "o": "<", "v": "0"}]
exec(open(os.path.join(V, "tools", "findings.py")).read())
json.dump(F, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(F), "findings")
