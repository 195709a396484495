"""The driver shared by all checks.

A check builds scenarios (JSON values that say what to ask the real library),
records what the library does with each of them, and hands the recorded events
to a TLA+ trace specification, which decides.  Scenarios are independent of the
working tree, so a scenario stored in a replay file can be asked again.
"""
import hashlib, importlib, json, multiprocessing, os, signal, sys, time, traceback

import env

DEFAULT = ("Oracle", "Oracle.cfg")


class Timeout(BaseException):
  pass


def _alarm(*_):
  raise Timeout()


_recorders = None


def recorders():
  """kind -> function(scenario) -> dict of observations."""
  global _recorders
  if _recorders is None:
    import record
    _recorders = record.KINDS
  return _recorders


LIMIT = 60


def record_one(sc):
  """Asks the library; the observation is always a JSON value, never an exception."""
  ev = dict(sc)
  signal.signal(signal.SIGALRM, _alarm)
  signal.alarm(LIMIT)
  try:
    import build
    try:
      with env.quiet():
        obs = recorders()[sc["kind"]](sc)
      ev.update(obs)
    except Timeout:
      ev["fail"] = "no answer in %d s" % LIMIT
    except BaseException as e:  # pylint: disable=broad-except
      ev["fail"] = "%s: %s" % (type(e).__name__, str(e)[:300])
      ev["tb_text"] = traceback.format_exc()[-1500:]
  finally:
    signal.alarm(0)
  ev.setdefault("fail", "")
  return ev


def record_all(scs):
  if len(scs) < 20 or env.NPROC == 1:
    return [record_one(s) for s in scs]
  import build  # noqa: F401  import before forking
  recorders()
  with multiprocessing.get_context("fork").Pool(env.NPROC) as pool:
    return pool.map(record_one, scs, chunksize=max(1, min(32, len(scs) // (env.NPROC * 4))))


def strip(ev):
  """What the specification needs of an event."""
  return {k: v for k, v in ev.items() if k not in ("tb_text", "note", "queries")}


class Check:
  """One run of the check of one property."""

  def __init__(self, prop, tier):
    self.prop = prop
    self.tier = tier
    self.thorough = tier == "thorough"
    self.seed = env.SEED
    self.t0 = time.time()
    self.violations = []          # (scenario, detail)
    self.states = self.transitions = 0
    self.events = 0
    self.rejected_known = []
    self.cover = {}               # measured counts by class of scenario
    self.distinct = set()
    self.samples = []
    self.notes = {}
    self.assumptions = []
    self.known = self._known()

  # ---- sizes ---------------------------------------------------------------
  def n(self, quick, thorough=None):
    f = float(os.environ.get("MS_SCALE", "1"))
    return max(1, int((thorough or quick * 6) * f)) if self.thorough else max(1, int(quick * f))

  def gen(self, salt):
    from gen import Gen
    h = hashlib.sha256(("%s/%s/%d" % (self.prop, salt, self.seed)).encode()).digest()
    return Gen(int.from_bytes(h[:8], "big"))

  # ---- known findings --------------------------------------------------------
  def _known(self):
    path = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(path):
      return []
    return [k for k in json.load(open(path)) if k["property"] == self.prop]

  # ---- validation --------------------------------------------------------------
  def validate(self, scs, module=DEFAULT, heap="6g", workers=8, timeout=800, env_=None):
    """Records the scenarios and has the specification judge them."""
    import tlc
    scs = list(scs)
    for i, s in enumerate(scs):
      s["id"] = "%s-%d" % (s.get("kind", "e"), i)
    evs = record_all(scs)
    return self.judge(evs, scs, module, heap, workers, timeout, env_)

  def judge(self, evs, scs, module=DEFAULT, heap="6g", workers=8, timeout=800, env_=None):
    import tlc
    failed = [e for e in evs if e["fail"]]
    good = [e for e in evs if not e["fail"]]
    verdicts = {}
    chunk = 4000
    for a in range(0, len(good), chunk):
      v, (gen, dis) = tlc.validate(module[0], module[1], [strip(e) for e in good[a:a + chunk]],
                                   heap=heap, workers=workers, timeout=timeout, env=env_)
      verdicts.update(v)
      self.transitions += max(0, gen - dis) if gen > dis else gen // 2
      self.states += dis
    self.events += len(evs)
    byid = {s["id"]: s for s in scs}
    out = {}
    for e in evs:
      if e["fail"]:
        out[e["id"]] = ("bad", "the library failed: " + e["fail"])
      else:
        out[e["id"]] = verdicts[e["id"]]
      sc = byid[e["id"]]
      self.cover[sc.get("cls", sc["kind"])] = self.cover.get(sc.get("cls", sc["kind"]), 0) + 1
      key = hashlib.sha1(json.dumps({k: v for k, v in sc.items() if k != "id"}, sort_keys=True).encode()).digest()
      if key not in self.distinct:
        self.distinct.add(key)
      if out[e["id"]][0] != "ok":
        if sc.get("known"):
          self.rejected_known.append((sc, out[e["id"]][1]))
        else:
          self.violations.append((sc, out[e["id"]][1], e))
    for e in evs[:: max(1, len(evs) // 3)][:3]:
      self.sample({k: v for k, v in e.items() if k in ("kind", "cls", "tree", "sp", "out", "ops", "fail")})
    return out

  def sample(self, s):
    t = json.dumps(s)
    if len(self.samples) < 6:
      self.samples.append(s if len(t) < 3000 else t[:3000])

  def regressions(self):
    """The scenarios of known and fixed findings, to be run along."""
    out = []
    for k in self.known:
      for sc in k.get("scenarios", []):
        sc = dict(sc)
        sc["cls"] = "finding"
        if k["status"] == "known":
          sc["known"] = k["id"]
        out.append(sc)
    return out

  def model(self, module, cfg, heap="4g", workers=8, timeout=700, env_=None, extra=()):
    """Model checks a specification exhaustively; a violated invariant is an error of the model."""
    import tlc
    rc, out = tlc.run(module, cfg, env=env_, workers=workers, heap=heap, timeout=timeout, extra=extra)
    if rc != 0:
      raise tlc.MachineryError("model checking %s/%s failed (rc %d):\n%s" % (module, cfg, rc, out[-3000:]))
    gen, dis = tlc.stats(out)
    self.states += dis
    self.transitions += gen
    self.notes.setdefault("models", {})["%s/%s" % (module, cfg)] = {"states": dis, "generated": gen}
    return out

  def laws(self, rows, deep):
    """The laws of the property hold for the semantics: every table of at most so many rows (Laws.tla)."""
    n = deep if self.thorough else rows
    self.model("Laws", "Laws.cfg", env_={"MS_LAW": self.prop, "MS_ROWS": str(n)})
    self.notes["laws"] = "every table of at most %d rows (2 x 2 groups, 3 or 4 values)" % n

  def fail(self, scenario, detail):
    """A violation decided outside Oracle (e.g. a replayed behaviour)."""
    self.violations.append((scenario, detail, None))

  # ---- reporting ---------------------------------------------------------------
  def finish(self, level="model_checking"):
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    rule = self.notes.pop("rule", "scenarios are drawn from seeded generators (harness/gen.py); non-trivial: distinct as a JSON value")
    ev = {
        "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
        "coverage": {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.events,
            "distinct_nontrivial": len(self.distinct), "rule": rule,
            "by_class": self.cover, "samples": self.samples or ["none"], **self.notes},
        "assumptions": self.assumptions,
        "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
    tmp = os.path.join(env.VERIF, "evidence", "%s.json.tmp" % self.prop)
    with open(tmp, "w") as f:
      json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(env.VERIF, "evidence", "%s.json" % self.prop))
    seen = set()
    for sc, d in self.rejected_known:
      if sc["known"] not in seen:
        seen.add(sc["known"])
        what = [k["what"] for k in self.known if k["id"] == sc["known"]][0]
        print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
    if not self.violations:
      print("OK property=%s events=%d states=%d wall=%.1fs" % (self.prop, self.events, self.states, time.time() - self.t0))
      return 0
    rep = os.path.join(env.VERIF, "replays")
    os.makedirs(rep, exist_ok=True)
    sc, d, e = min(self.violations, key=lambda v: len(json.dumps(v[0])))
    path = os.path.join(rep, "%s.json" % self.prop)
    with open(path, "w") as f:
      json.dump({"property": self.prop, "detail": d, "scenario": sc, "event": e,
                 "others": [{"scenario": s, "detail": x} for s, x, _ in self.violations[:50]],
                 "total": len(self.violations)}, f, indent=1)
    for s, x, _ in self.violations[:5]:
      print("  %s %s: %s" % (s.get("kind"), s.get("cls", ""), x[:300]))
    print("VIOLATION property=%s replay=%s" % (self.prop, path))
    return 1


def main(argv):
  prop = argv[0]
  if len(argv) > 2 and argv[1] == "--replay":
    r = json.load(open(argv[2]))
    os.environ["MS_NPROC"] = "1"
    env.NPROC = 1
    c = Check(prop, "quick")
    mod = importlib.import_module("checks." + prop.lower())
    if callable(getattr(mod, "replay", None)):
      mod.replay(c, r["scenario"])
    else:
      c.validate([r["scenario"]], getattr(mod, "MODULE", DEFAULT))
    for sc, d, e in c.violations:
      print(json.dumps(sc)); print(json.dumps(e)); print(d)
    return 1 if c.violations else 0
  tier = argv[1] if len(argv) > 1 else env.TIER
  env.TIER = tier
  c = Check(prop, tier)
  import tlc
  try:
    try:
      import build  # noqa: F401
    except tlc.MachineryError:
      raise
    except Exception as e:  # the library cannot even be imported
      c.fail({"kind": "import"}, "importing the library failed: %s: %s" % (type(e).__name__, e))
      return c.finish()
    mod = importlib.import_module("checks." + prop.lower())
    level = mod.run(c) or "model_checking"
    return c.finish(level)
  except tlc.MachineryError as e:
    print("ERROR of the check itself: %s" % e, file=sys.stderr)
    if c.violations:
      return c.finish()
    return 3


if __name__ == "__main__":
  sys.exit(main(sys.argv[1:]))
