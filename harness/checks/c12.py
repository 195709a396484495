"""C12: Poisson bootstrap replicates weight whole units, over all slices together."""
from checks import c11


def run(c):
  c.laws(3, 3)
  c11.run(c, "Poisson")
