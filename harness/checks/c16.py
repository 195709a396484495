"""C16: what compares equal computes the same."""
import scen


def run(c):
  g = c.gen("equal")
  c.validate(c.regressions() + scen.many(scen.equality, g, c.n(1500)) + scen.many(scen.equality_models, g, c.n(400)))
