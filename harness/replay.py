"""Replays the histories which Session.tla enumerates on the library."""
import multiprocessing, os, re
import env, scen

FLAWS = ("twins", "address", "hash", "unsplit", "stale", "kept", "half")


def config(objs, slots, trips, length, flaw="", tell=True):
  path = os.path.join(env.scratch(), "session_%d.cfg" % config.n)
  config.n += 1
  q = lambda xs: "{%s}" % ", ".join('"%s"' % x for x in xs)
  with open(path, "w") as f:
    f.write("SPECIFICATION Spec\nINVARIANTS Transparent Faithful NoHalves\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
            "MaxLen = %d\nObjs = %s\nSlots = %s\nTrips = %s\nFlaw = \"%s\"\nTell = %s\n" % (
                length, q(objs), q(slots), "TRUE" if trips else "FALSE", flaw, "TRUE" if tell else "FALSE"))
  return path


config.n = 0


def histories(c, objs, slots, trips, length):
  """All histories of that length; the model is checked along."""
  out = c.model("Session", config(objs, slots, trips, length))
  return re.findall(r'^"H\|(.*)"$', out, re.M)


def flaws(c):
  """The invariants tell a mechanism with a fault from one without."""
  import tlc
  for f in FLAWS:
    rc, out = tlc.run("Session", config(["A", "B", "P", "TA", "TB"], ["Ck", "Cl"], True, 3, f, False))
    if "is violated" not in out:
      raise tlc.MachineryError("the model of sessions does not notice the flaw " + f)
  c.notes["flaws_noticed"] = list(FLAWS)


BINDINGS = []


def one(job):
  import record
  b, hist, spoil = job
  s = scen.bind(BINDINGS[b], hist, spoil)
  try:
    with env.quiet():
      outs = record.session(s)["outs"]
  except Exception as e:  # pylint: disable=broad-except
    return job, "harness: %r" % e
  for st, o in zip(s["steps"], outs):
    if o["trace"]:
      return job, o["trace"]
    if o["tripped"]:
      if not o["out"]["err"] and not scen.any_in(st["tree"], scen.swallows):
        return job, "an answer though an inner metric failed"
    elif o["out"] != (o["fresh"] if st["drawn"] else FRESH[b][(st["m"], st["t"], bool(st["sp"]))]):
      return job, "another answer"
  return job, ""


FRESH = []


def fresh(b):
  import record
  out = {}
  for m in range(4):
    if not scen.random_parts(b["trees"][m]):
      for t in (0, 1):
        for sp in ([], ["s"]):
          with env.quiet():
            out[(m, t, bool(sp))] = record.eval({"tree": b["trees"][m], "tb": b["tables"][t], "sp": sp})["out"]
  return out


def run(c, g, hists, nbind, brittle=None):
  """Replays each history with one of nbind bindings; what differs is judged by Oracle as a session."""
  global BINDINGS, FRESH
  BINDINGS = [scen.binding(g, brittle) for _ in range(nbind)]
  FRESH = [fresh(b) for b in BINDINGS]
  c.validate([a for b in BINDINGS for a in scen.answers(b)])
  jobs = [(i % nbind, h, i // nbind % 2 == 0) for i, h in enumerate(hists)]
  with multiprocessing.get_context("fork").Pool(env.NPROC) as pool:
    res = pool.map(one, jobs, chunksize=50)
  odd = [scen.bind(BINDINGS[b], h, spoil) for (b, h, spoil), why in res if why]
  c.events += len(jobs)
  n = c.notes.setdefault("histories", {"replayed": 0, "bindings": 0, "judged_as_sessions": 0})
  n["replayed"] += len(jobs)
  n["bindings"] += nbind
  n["judged_as_sessions"] += len(odd)
  for b, h, _ in jobs:
    c.distinct.add((id(BINDINGS[b]), h))
  c.cover["history"] = c.cover.get("history", 0) + len(jobs)
  c.validate(g.sample(odd, min(len(odd), 400)))
