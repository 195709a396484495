"""C02: base aggregates."""
import scen


def run(c):
  c.laws(4, 5)
  g = c.gen("leaf")
  scs = c.regressions()
  for op in scen.LEAVES:
    scs += scen.many(scen.leaf, g, c.n(110), op, wp=0.1)
    scs += scen.many(scen.leaf, g, c.n(40), op, small=True)
  c.validate(scs)
