"""C05: distributions."""
import scen


def run(c):
  c.laws(4, 6)
  g = c.gen("dist")
  scs = c.regressions()
  scs += scen.many(scen.dist, g, c.n(450), op="Distribution")
  scs += scen.many(scen.dist, g, c.n(700), op="Cumulative")
  scs += scen.many(scen.nested, g, c.n(200), pick=("Distribution", "Cumulative"))
  c.validate(scs)
