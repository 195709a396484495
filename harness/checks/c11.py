"""C11: bootstrap replicates are the inner metric on whole drawn units, slice by slice."""
import itertools
import scen


def run(c, op="Bootstrap"):
  if op == "Bootstrap":
    c.laws(3, 3)
  g = c.gen("boot")
  scs = c.regressions()
  for unit, opt, extra in itertools.product((True, False), (True, False), (True, False)):
    k = 60 if unit and opt else 25
    scs += scen.many(scen.bootstrap, g, c.n(k), op, unit=unit, opt=opt, extra=extra)
  scs += scen.many(scen.bootstrap_odd, g, c.n(25), op)
  for unit, opt, split in itertools.product((True, False), (True, False), (False, True)):
    scs.append(scen.draws(g, op, unit=unit, opt=opt, split_=split))
    if not split:
      scs.append(scen.draws(g, op, unit=unit, opt=opt, n=3, reps=600))
  c.validate(scs)
