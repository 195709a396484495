"""C17: wide, long and raw forms of every result, and the conversions between them."""
import scen


def run(c):
  g = c.gen("forms")
  scs = c.regressions()
  scs += scen.many(scen.formats, g, c.n(700))
  c.validate(scs)
