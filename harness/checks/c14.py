"""C14: caching is transparent."""
import replay as histories
import scen


NULLS = {"MS_NULLDIV": "1"}    # a query has missing values where memory has infinities


def run(c):
  g = c.gen("sessions")
  c.validate(c.regressions() + scen.many(scen.session, g, c.n(900), mode="cache") + scen.many(scen.session, g, c.n(500), mode="both") +
             scen.many(scen.near_twins, g, c.n(200)) + scen.many(scen.sql_session, g, c.n(400), mode="mixed"))
  c.validate(scen.many(scen.sql_session, g, c.n(300), mode="sql"), env_=NULLS)
  histories.flaws(c)
  few = lambda h, k: h if c.thorough else g.sample(h, min(len(h), c.n(k)))
  histories.run(c, g, few(histories.histories(c, ["A", "B", "P"], ["Ck", "Cl"], True, 3), 5000), c.n(60))
  histories.run(c, g, few(histories.histories(c, ["A", "A2", "B", "P", "TA", "TB", "Q"], ["Ck", "Cl", "Dk"], False, 2), 3000), c.n(60))


def replay(c, sc):
  c.validate([sc], env_=NULLS if sc.get("cls") == "session:sql" else None)
