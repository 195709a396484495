"""C23: row order, row labels, unused columns, column names."""
import scen


def run(c):
  c.laws(3, 4)
  g = c.gen("order")
  scs = c.regressions() + scen.many(scen.reordered, g, c.n(900))
  c.validate(scs)
