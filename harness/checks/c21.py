"""C21: the coefficients of a fitted model are those that minimise its objective."""
import scen

NULLS = {"MS_NULLDIV": "1"}    # the sums behind a fit are computed by a query


def run(c):
  c.laws(4, 5)
  g = c.gen("models")
  scs = c.regressions()
  for kind, n in (("OLS", 120), ("Ridge", 140), ("Lasso", 130), ("ElasticNet", 130), ("Logistic", 100)):
    scs += scen.many(scen.model, g, c.n(n), kind)
  scs += scen.many(scen.model_nested, g, c.n(180))
  for kind, n in (("OLS", 30), ("Ridge", 60), ("Lasso", 25), ("ElasticNet", 25), ("Logistic", 15)):
    scs += scen.many(summed, g, c.n(n), kind)
  split(c, scs)


def summed(g, kind):
  """Fitted to sums of products computed in the database."""
  return scen.nomissing(scen.model(g, kind, 0.1, {"mode": "magic"}))


def split(c, scs):
  c.validate([s for s in scs if "how" not in s])
  c.validate([s for s in scs if "how" in s], env_=NULLS)


def replay(c, sc):
  split(c, [sc])
