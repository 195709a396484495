"""C18: the query computes what the metric computes in memory."""
import itertools
import scen

FAMILIES = [(scen.sql_leaf, 200), (scen.sql_comp, 120), (scen.sql_lst, 120), (scen.sql_dist, 120), (scen.sql_change, 160),
            (scen.sql_nested, 160), (scen.sql_mh, 100), (scen.sql_prepost, 80), (scen.sql_diversity, 120),
            (scen.sql_opcomp, 80), (scen.sql_near, 120), (scen.sql_jackknife, 160), (scen.sql_jk_list, 120),
            (scen.sql_beside, 160)]


def run(c):
  g = c.gen("sql")
  scs = c.regressions()
  for f, k in FAMILIES:
    scs += scen.many(f, g, c.n(k))
  for op in ("Bootstrap", "Poisson"):
    scs += scen.many(scen.sql_bootstrap, g, c.n(80), op)
    for unit, opt, split in itertools.product((True, False), (True, False), (False, True)):
      scs.append(scen.sql_draws(g, op, unit, opt, split))
  c.validate(scs, env_=MODE)


MODE = {"MS_NULLDIV": "1"}     # a query has missing values where memory has infinities


def replay(c, sc):
  c.validate([sc], env_=MODE)
