"""C04: arithmetic and lists."""
import scen


def run(c):
  c.laws(3, 4)
  g = c.gen("arith")
  scs = c.regressions()
  scs += scen.many(scen.comp, g, c.n(600))
  scs += scen.many(scen.lst, g, c.n(350))
  scs += scen.many(scen.opcomp, g, c.n(250))
  scs += scen.many(scen.members, g, c.n(300))
  scs += scen.many(scen.alike, g, c.n(200))
  c.validate(scs)
