"""C22: what the table of intervals shows."""
import scen


def run(c):
  g = c.gen("display")
  c.validate(c.regressions() + scen.many(scen.display, g, c.n(2500)) + scen.many(scen.results, g, c.n(1000)))


def replay(c, sc):
  c.validate([sc])
