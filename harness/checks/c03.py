"""C03: filters."""
import scen


def run(c):
  c.laws(3, 4)
  g = c.gen("filters")
  scs = c.regressions()
  for f, n in ((scen.leaf, 150), (scen.comp, 200), (scen.lst, 200), (scen.dist, 120), (scen.change, 120),
               (scen.nested, 160), (scen.mh, 100), (scen.diversity, 100)):
    k = "wp" 
    scs += [f(g, wp=0.5) for _ in range(c.n(n))]
  scs += scen.many(scen.prefiltered, g, c.n(300))
  c.validate(scs)
