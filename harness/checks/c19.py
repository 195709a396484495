"""C19: leaf metrics in the database and the rest in memory give what memory alone gives."""
import itertools
import scen

NULLS = {"MS_NULLDIV": "1"}    # the metrics on resamples are computed by one query, and so are the sums for models


def resampled(sc):
  return sc.get("tree", {}).get("op") in ("Bootstrap", "Poisson") or sc["kind"] == "model"


def split(c, scs):
  c.validate([s for s in scs if not resampled(s)])
  c.validate([s for s in scs if resampled(s)], env_=NULLS)


def run(c):
  g = c.gen("mixed")
  scs = c.regressions() + scen.many(scen.mixed, g, c.n(900))
  for op in ("Bootstrap", "Poisson"):
    scs += scen.many(scen.mixed_bootstrap, g, c.n(150), op)
    for unit, opt, sp in itertools.product((True, False), (True, False), (False, True)):
      scs.append(scen.mixed_draws(g, op, unit, opt, sp))
  for kind, n in (("OLS", 60), ("Ridge", 70), ("Lasso", 40), ("ElasticNet", 40), ("Logistic", 30)):
    scs += scen.many(modelled, g, c.n(n), kind, "magic")
  for kind, n in (("OLS", 15), ("Ridge", 15), ("ElasticNet", 15), ("Logistic", 15)):
    scs += scen.many(modelled, g, c.n(n), kind, "mixed")
  split(c, scs)


def modelled(g, kind, mode):
  return scen.nomissing(scen.model(g, kind, 0.1, {"mode": mode}))


def replay(c, sc):
  split(c, [sc])
