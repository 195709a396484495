"""C20: what the classes that write queries put together, and what the metrics put together with them."""
import names
import scen


def run(c):
  g = c.gen("builder")
  names.flaws(c)
  few = lambda h, k: h if c.thorough else g.sample(h, min(len(h), c.n(k)))
  scs = c.regressions()
  scs += [names.titles(g, h) for h in few(names.histories(c, "Titles", MaxLen=4), 2500)]
  for k in ({"Stores": [1]}, {"Hows": ["add"], "Cols": [1]}, {"MaxLen": 2}, {"Names": ["A"], "Cols": [1], "Shapes": [1, 2]}):
    scs += [names.subqueries(g, h) for h in few(names.histories(c, "Subqueries", **k), 800)]
  if c.thorough:
    scs += [names.titles(g, h) for h in g.sample(names.histories(c, "Titles", MaxLen=5, Exprs=["x", "y"]), 20000)]
    scs += [names.subqueries(g, h) for h in g.sample(names.histories(c, "Subqueries", MaxLen=4, Hows=["add"], Cols=[1]), 10000)]
  scs += scen.many(scen.titles, g, c.n(800)) + scen.many(scen.columns, g, c.n(400)) + scen.many(scen.filters, g, c.n(1200))
  scs += scen.many(scen.subqueries, g, c.n(1500)) + scen.many(scen.texts, g, c.n(800))
  c.validate(scs, env_={"MS_NULLDIV": "1"})


def replay(c, sc):
  c.validate([sc], env_={"MS_NULLDIV": "1"})
