"""C09: diversity."""
import scen


def run(c):
  c.laws(4, 5)
  g = c.gen("diversity")
  scs = c.regressions()
  for op in ("HHI", "Entropy", "TopK", "Nxx"):
    scs += scen.many(scen.diversity, g, c.n(250), op=op)
    scs += scen.many(scen.diversity, g, c.n(60), op=op, big=True)
  c.validate(scs)
