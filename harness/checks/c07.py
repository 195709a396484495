"""C07: Mantel-Haenszel."""
import scen


def run(c):
  c.laws(5, 7)
  g = c.gen("mh")
  scs = c.regressions() + scen.many(scen.mh, g, c.n(1000), 0.08)
  c.validate(scs)
