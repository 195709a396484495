"""C15: computing changes nothing but the result."""
import replay as histories
import scen


def run(c):
  g = c.gen("sessions")
  c.validate(c.regressions() + scen.many(scen.session, g, c.n(900), mode="clean") + scen.many(scen.session, g, c.n(500), mode="both"))
  few = lambda h, k: h if c.thorough else g.sample(h, min(len(h), c.n(k)))
  histories.run(c, g, few(histories.histories(c, ["A", "B", "P"], [], True, 3), 4000), c.n(60))
  histories.run(c, g, few(histories.histories(c, ["A", "A2", "P", "Q"], ["Ck"], True, 2), 1000), c.n(40), True)
