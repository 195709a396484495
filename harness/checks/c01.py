"""C01: slices are independent."""
import scen


def run(c):
  c.laws(4, 5)
  g = c.gen("slices")
  scs = c.regressions()
  scs += scen.many(scen.slices, g, c.n(500))
  for f, n in ((scen.leaf, 200), (scen.comp, 100), (scen.dist, 130), (scen.change, 130),
               (scen.nested, 160), (scen.mh, 120), (scen.prepost, 100), (scen.diversity, 130)):
    scs += scen.many(scen.must_split, g, c.n(n), f)
  scs += scen.many(scen.slow, g, c.n(250))
  c.validate(scs)
