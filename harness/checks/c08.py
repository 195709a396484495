"""C08: PrePost and CUPED."""
import scen


def run(c):
  c.laws(5, 6)
  g = c.gen("prepost")
  scs = c.regressions()
  scs += scen.many(scen.prepost, g, c.n(450), 0.0, "PrePost")
  scs += scen.many(scen.prepost, g, c.n(450), 0.0, "CUPED")
  scs += scen.many(scen.prepost, g, c.n(150), 0.2)
  c.validate(scs)
