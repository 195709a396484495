"""C10: jackknife as leave-one-unit-out, whichever path computes it."""
import scen


def run(c):
  c.laws(4, 6)
  g = c.gen("jk")
  scs = c.regressions()
  scs += scen.many(scen.jackknife, g, c.n(420))
  scs += scen.many(scen.jk_list, g, c.n(80))
  scs += scen.many(scen.jackknife, g, c.n(60), fams=[scen.leaf, scen.comp, scen.lst], opt=True)
  scs += scen.many(scen.jackknife, g, c.n(60), fams=[scen.dist, scen.change, scen.mh], opt=True)
  scs += scen.many(scen.jk_prepost, g, c.n(40))
  c.validate(scs)
