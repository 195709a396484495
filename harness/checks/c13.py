"""C13: confidence intervals: value -/+ Student quantile times standard error."""
import scen


def run(c):
  c.laws(4, 6)
  g = c.gen("ci")
  scs = c.regressions()
  scs += scen.many(scen.jackknife, g, c.n(200), conf=1.0)
  scs += scen.many(scen.jackknife, g, c.n(60), fams=[scen.leaf, scen.comp, scen.lst], opt=True, conf=1.0)
  scs += scen.many(scen.jackknife, g, c.n(60), fams=[scen.dist, scen.change, scen.mh], conf=1.0)
  scs += scen.many(scen.jk_prepost, g, c.n(25), conf=1.0)
  for op in ("Bootstrap", "Poisson"):
    scs += scen.many(scen.bootstrap, g, c.n(60), op, conf=1.0)
  scs += scen.many(scen.formats, g, c.n(120), fams=["conf", "conf", "conf", "boot"])
  c.validate(scs)
