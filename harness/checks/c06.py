"""C06: comparisons."""
import scen


def run(c):
  c.laws(4, 5)
  g = c.gen("change")
  scs = c.regressions()
  scs += scen.many(scen.change, g, c.n(450), op="Percent")
  scs += scen.many(scen.change, g, c.n(450), op="Absolute")
  scs += scen.many(scen.nested, g, c.n(300), pick=("Percent", "Absolute"))
  c.validate(scs)
