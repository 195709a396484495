"""What is asked of the library for each kind of scenario, and what is recorded."""
import contextlib
import io
import re

import build
from build import record, error, frame

KINDS = {}


def kind(f):
  KINDS[f.__name__] = f
  return f


def ask(fn):
  """The recorded result of a call, or the recorded error."""
  try:
    return record(fn())
  except Exception as e:  # pylint: disable=broad-except
    return error(e)


def split_arg(sp):
  return None if not sp else sp[0] if len(sp) == 1 else list(sp)


@kind
def eval(sc):  # pylint: disable=redefined-builtin
  m = build.build(sc["tree"])
  return {"out": ask(lambda: m.compute_on(frame(sc["tb"]), split_arg(sc["sp"])))}


def one_ask(a):
  """One computation: a tree on a table with options (how)."""
  how = a.get("how") or {}
  df = frame(a["tb"])
  if "keep" in how:
    for c in how["keep"]:
      df = df.query(build.where_str(c))
  if "perm" in how:
    df = df.iloc[how["perm"]]
  if "index" in how:
    df.index = how["index"]
  elif "perm" in how and how.get("reset"):
    df = df.reset_index(drop=True)
  for c, v in (how.get("extra") or {}).items():
    df[c] = v
  if how.get("cols"):
    df = df[[c for c in how["cols"] if c in df] + [c for c in df if c not in how["cols"]]]
  m = build.build(a["tree"])
  sp = split_arg(a["sp"])
  if how.get("tuple") and isinstance(sp, list):
    sp = tuple(sp)
  kw = {}
  if "melted" in how:
    kw["melted"] = how["melted"]
  if "seed" in how:
    import numpy as np
    np.random.seed(how["seed"])
  if "sql" in how:                 # in the database
    import bq
    db = bq.Database(df, seed=how.get("seed", 0))
    out = ask(lambda: m.compute_on_sql("T", sp, db.execute, mode=how["sql"] or None, **kw))
  else:
    out = ask(lambda: m.compute_on(df, sp, **kw))
  if "unren" in how:
    out["idx"] = [how["unren"].get(c, c) for c in out["idx"]]
  return out


@kind
def same(sc):
  return {"outs": [one_ask(a) for a in sc["asks"]], "asks": []}


@kind
def slices(sc):
  """A split computation and the same one on the rows of each slice alone."""
  import pandas as pd
  tb, sp = sc["tb"], sc["sp"]
  df = frame(tb)
  out = ask(lambda: build.build(sc["tree"]).compute_on(df, split_arg(sp)))
  w = build.where_arg(sc["tree"].get("where"))
  kept = df
  for c in ([w] if isinstance(w, str) else w or []):
    kept = kept.query(c)
  parts = []
  for key in sorted({tuple(r) for r in kept[sp].astype(object).itertuples(index=False)}, key=str):
    mask = pd.Series(True, index=df.index)
    for c, v in zip(sp, key):
      mask &= df[c] == v
    part = df[mask]
    parts.append({"k": [build.lab(v) for v in key],
                  "out": ask(lambda: build.build(sc["tree"]).compute_on(part))})
  return {"out": out, "parts": parts}


@kind
def members(sc):
  """A list of metrics and each of its members on its own."""
  df, sp, t = frame(sc["tb"]), split_arg(sc["sp"]), sc["tree"]
  out = ask(lambda: build.build(t).compute_on(df, sp))
  alone = [ask(lambda k=k: build.build(k).compute_on(df, sp)) for k in t["kids"]]
  want = []
  if t.get("rename"):
    want = t["rename"]
  return {"out": out, "alone": alone, "want": want}


def replicate(res, titles, idx):
  """One melted replicate as the rows of a frame over idx."""
  cells = {}
  names = list(res.index.names)
  for k, v in zip(res.index, res.iloc[:, 0]):
    k = k if isinstance(k, tuple) else (k,)
    d = dict(zip(names, k))
    key = tuple(build.lab(d[n]) for n in idx)
    if any(d[n] != d[n] for n in idx):
      continue
    cells.setdefault(key, {})[d["Metric"]] = build.rational(v)
  return {"idx": idx, "n": len(titles),
          "rows": [{"k": list(k), "v": [c.get(t, "nan") for t in titles]} for k, c in cells.items()]}


def none(log):
  """Whether nothing at all was drawn in any of the resamples."""
  return len(log) == 1 and all(r is None or len(r) == 0 for r in log[0])


@kind
def boot(sc):
  import numpy as np
  np.random.seed(sc["seed"])
  build.LOG = []
  df = frame(sc["tb"])
  m = build.build(sc["tree"])
  out = ask(lambda: m.compute_on(df, split_arg(sc["sp"])))
  log, build.LOG = build.LOG, None
  reps = []
  if out["err"] == "" and len(log) == 1:
    step = 3 if sc["tree"]["conf"] else 2
    titles = [c.rsplit("|", 1)[0] for c in out["cols"][::step]]
    reps = [replicate(r, titles, out["idx"]) for r in log[0]]
  return {"out": out, "reps": reps, "hooked": len(log) == 1, "none": none(log)}


@kind
def draws(sc):
  """Only the numbers of times the units were drawn, of many replicates."""
  import numpy as np
  np.random.seed(sc["seed"])
  build.LOG = []
  df = frame(sc["tb"])
  res = build.build(sc["tree"]).compute_on(df, split_arg(sc["sp"]))
  log, build.LOG = build.LOG, None
  titles = ["sum(%s)" % c for c in sc["ind"]]
  w = []
  for r in log[0] if len(log) == 1 else []:
    rows = replicate(r, titles, list(res.index.names) if sc["sp"] else [])["rows"]
    keys = [tuple(k["k"]) for k in rows]
    by = dict(zip(keys, rows))
    for s in sc["slices"]:
      v = by[tuple(s)]["v"] if tuple(s) in by else ["0"] * len(titles)
      w.append([int(float(x)) if x != "nan" and "/" not in x else 0 for x in v])
  k = sc["rows_per_unit"]
  return {"w": [[a // k for a in v] for v in w], "n": len(sc["ind"]), "tb": {}, "tree": {"op": sc["tree"]["op"]}}


@kind
def sqldraws(sc):
  """The numbers of times the units were drawn by a query."""
  import bq
  df = frame(sc["tb"])
  db = bq.Database(df, seed=sc["seed"])
  kw = {k: v for k, v in (sc.get("how") or {}).items() if k in ("mode", "batch_size")}
  build.LOG = [] if kw else None
  try:
    build.build(sc["tree"]).compute_on_sql("T", split_arg(sc["sp"]), db.execute, **kw)
  finally:
    log, build.LOG = build.LOG, None
  n, sp, k = len(sc["ind"]), sc["sp"], sc["rows_per_unit"]
  w = []
  if kw:
    titles = ["sum(%s)" % c for c in sc["ind"]]
    for r in log[0] if len(log) == 1 else []:
      by = {tuple(a["k"]): a["v"] for a in replicate(r, titles, sp)["rows"]}
      w += [[0 if v == "nan" else int(v) // k for v in by.get(tuple(s), [0] * n)] for s in sc["slices"]]
  elif len(db.log) == 1:
    t = db.log[0]
    cols = [c for c in t if c not in sp and c != bq.INDEX]
    if len(cols) == n:
      by = {tuple(build.lab(r[c]) for c in sp) + (r[bq.INDEX],): [int(r[c]) // k for c in cols]
            for r in t.astype(object).to_dict("records")}
      w = [by.get(tuple(s) + (r,), [0] * n) for r in range(1, sc["tree"]["n"] + 1) for s in sc["slices"]]
  return {"kind": "draws", "w": w, "n": n, "tb": {}, "tree": {"op": sc["tree"]["op"]}}


def typed(v):
  import numpy as np
  if isinstance(v, tuple):
    return "t:(%s)" % ",".join(typed(a) for a in v)
  if isinstance(v, (bool, np.bool_)):
    return "b:%s" % v
  if isinstance(v, (int, np.integer, float, np.floating)):
    return "n:%s" % build.lab(v)
  return "s:%s" % v


def whole(res):
  """A result with the types of its labels and the levels of its titles."""
  import pandas as pd
  o = build.record(res)
  o["kind"] = type(res).__name__
  if isinstance(res, pd.Series):
    res = res.to_frame()
  if isinstance(res, pd.DataFrame):
    if o["idx"]:
      for r, k in zip(o["rows"], res.index):
        r["k"] = [typed(v) for v in (k if isinstance(k, tuple) else (k,))]
    multi = res.columns.nlevels > 1
    o["tc"] = [[typed(a) for a in c] if multi else [typed(c)] for c in res.columns]
  else:
    o["tc"] = [["s:value"]]
  return o


def ask_whole(fn):
  try:
    return whole(fn())
  except Exception as e:  # pylint: disable=broad-except
    return dict(error(e), kind="", tc=[])


@kind
def formats(sc):
  """One computation in every form it can be asked for, and the conversions between them."""
  import numpy as np
  from build import utils, metrics
  df, sp = frame(sc["tb"]), split_arg(sc["sp"])
  def run(**kw):
    np.random.seed(sc.get("seed", 0))
    return build.build(sc["tree"]).compute_on(df, sp, **kw)
  def piped(melted):
    np.random.seed(sc.get("seed", 0))
    return build.build(sc["tree"]) | metrics.compute_on(df, sp, melted)
  out = {"wide": ask_whole(run), "long": ask_whole(lambda: run(melted=True))}
  ok = out["wide"]["err"] == "" and out["long"]["err"] == ""
  again = []
  if ok:
    again = [
        {"of": "long", "what": "melt(wide)", "out": ask_whole(lambda: utils.melt(run()))},
        {"of": "wide", "what": "unmelt(long)", "out": ask_whole(lambda: utils.unmelt(run(melted=True)))},
        {"of": "wide", "what": "unmelt(melt(wide))", "out": ask_whole(lambda: utils.unmelt(utils.melt(run())))},
        {"of": "long", "what": "melt(unmelt(long))", "out": ask_whole(lambda: utils.melt(utils.unmelt(run(melted=True))))},
        {"of": "wide", "what": "compute_on(df)(metric)", "out": ask_whole(lambda: piped(False))},
        {"of": "long", "what": "compute_on(df, melted)(metric)", "out": ask_whole(lambda: piped(True))}]
    if sc.get("raw"):
      again.append({"of": "raw", "what": "return_dataframe=False", "out": ask_whole(lambda: run(return_dataframe=False))})
  return dict(out, again=again)


@kind
def sql(sc):
  """The computation in the database."""
  import bq
  import numpy as np
  df = frame(sc["tb"])
  np.random.seed(sc.get("seed", 0))
  db = bq.Database(df, seed=sc.get("seed", 0))
  how = sc.get("how") or {}
  sp = split_arg(sc["sp"])
  build.SQL = True
  build.LOG = [] if "ind" in sc and how.get("mode") else None
  try:
    m = build.build(sc["tree"])
    table = sql_table(how.get("table", "T"), df, db, sc.get("seed", 0))
    kw = {k: how[k] for k in ("mode", "melted", "batch_size") if k in how}
    out = ask(lambda: m.compute_on_sql(table, sp, db.execute, **kw))
  finally:
    build.SQL = False
    log, build.LOG = build.LOG, None
  if log is not None:
    w = 3 if sc["tree"]["conf"] else 2
    titles = [c.rsplit("|", 1)[0] for c in out["cols"][::w]] if out["err"] == "" else []
    reps = [replicate(r, titles, out["idx"]) for r in log[0]] if len(log) == 1 and titles else []
    return {"out": out, "titles": [], "queries": db.queries, "reps": reps, "hooked": bool(reps), "none": none(log)}
  if "ind" in sc:
    return dict({"out": out, "titles": [], "queries": db.queries}, **sql_replicates(sc, db, out))
  titles = []
  if how.get("titles"):
    t = ask(lambda: build.build(sc["tree"]).compute_on(df, sp))
    titles = t["cols"] if t["err"] == "" and t["rows"] and t["n"] else []
    if sc["tree"]["op"] == "List" and not how.get("mode"):    # a query for a list has columns of one level
      titles = [re.sub(r"[|]Value$", "", c).replace("|", " ") for c in titles]
  return {"out": out, "titles": titles, "queries": db.queries}


def sql_replicates(sc, db, out):
  """What the metrics are on the resamples, as frames over the split columns."""
  if out["err"] or len(db.log) != 1:
    return {"reps": [], "hooked": False, "none": False}
  res = db.log[0]
  sp = sc["sp"]
  cols = [c for c in res if c not in sp and c != bq_index()]
  if len(cols) != out["n"] // (3 if sc["tree"]["conf"] else 2):
    return {"reps": [], "hooked": False, "none": False}
  reps = []
  for _, part in res.groupby(bq_index()):
    reps.append({"idx": sp, "n": len(cols),
                 "rows": [{"k": [build.lab(r[c]) for c in sp], "v": [build.rational(r[c]) for c in cols]}
                          for r in part.astype(object).to_dict("records")]})
  return {"reps": reps, "hooked": True, "none": not reps}


def bq_index():
  import bq
  return bq.INDEX


def sql_table(how, df, db, seed):
  from meterstick import sql as mssql
  if how == "T":
    return "T"
  if how == "query":
    return "SELECT * FROM T"
  if how == "object":
    return mssql.Sql(None, "T")
  if how == "columns":
    return mssql.Sql(mssql.Columns(list(df.columns)), "T")
  if how == "with":
    return mssql.Sql(None, "U", with_data=mssql.Datasource("SELECT * FROM T", "U"))
  return disguised(how, df, db, seed)


# names the library gives to queries of its own
OWN = ["Data", "NoNameTable", "BootstrapData", "BootstrapRandomRows", "DataToFit", "AverageValueTable", "ChangeRaw",
       "JackknifeTable", "AllUnits", "LeaveOneOut", "CompositeMetricTable0", "DistributionRaw", "U"]


def disguised(how, df, db, seed):
  """A query whose answer is the table; what it asks from is something else."""
  import random
  import pandas as pd
  from meterstick import sql as mssql
  rng = random.Random(seed)
  cols = list(df.columns)
  vals = [c for c in cols if df[c].dtype.kind in "fiu" and c != "t"]
  raw = df.copy()
  if how == "marked":                    # some rows only
    more = df.sample(frac=0.7, replace=True, random_state=seed)
    more = more.assign(**{c: more[c] * 2 + 1 for c in vals if c not in db.labels and df[c].dtype.kind == "f"})
    raw = pd.concat([raw.assign(keep=[rng.choice([1, 2]) for _ in range(len(raw))]), more.assign(keep=0)])
    db.load(raw, "R")
    return mssql.Sql(mssql.Columns(cols) if rng.random() < 0.5 else None, "R", rng.choice(["keep == 1 or keep = 2", ["keep > 0", "keep < 9"]]))
  if how == "renamed":                   # the columns have other names
    same = [c for c in vals if df[c].dtype.kind == "f"]
    new = dict(zip(same, same[1:] + same[:1]))
    raw.columns = [new.get(c, c) for c in cols]
    db.load(raw[cols], "R")
    return mssql.Sql([mssql.Column(new[c], alias=c) if c in new else mssql.Column(c) for c in cols], "R")
  if how == "pieces":                    # every row is the sum of several
    same = [c for c in vals if df[c].dtype.kind == "f"]
    raw = raw.assign(rid=range(len(raw)))
    k = {c: rng.randint(-3, 3) for c in same}
    raw = pd.concat([raw.assign(**{c: raw[c] - k[c] for c in same}), raw.assign(**{c: raw[c] * 0 + k[c] for c in same})])
    db.load(raw, "R")
    return mssql.Sql([mssql.Column(c, "SUM({})", c) for c in same], "R", groupby=["rid"] + [c for c in cols if c not in same])
  if how == "clash":                     # the query has names of the library's
    names = rng.sample(OWN, 3)
    names += [mssql.add_suffix(names[0])]
    rng.shuffle(names)
    q = mssql.Sql(None, names[-1])
    src, ds = "T", mssql.Datasources()
    for n in names:
      ds.add(mssql.Datasource(mssql.Sql(None if rng.random() < 0.5 else mssql.Columns(cols), src), n))
      src = n
    return mssql.Sql(None if rng.random() < 0.5 else mssql.Columns(cols), src, with_data=ds)
  raise ValueError(how)


# ---- many computations with the same objects ----------------------------------

def identical(a, b):
  """Whether two tables are the same, to the types and the labels."""
  import pandas as pd
  try:
    pd.testing.assert_frame_equal(a, b, check_exact=True, check_column_type=True)
    return True
  except AssertionError:
    return False


def spoil(res):
  """What a user may do with a result of theirs."""
  import pandas as pd
  if isinstance(res, (pd.DataFrame, pd.Series)):
    if len(res):
      res.iloc[:] = -777
    if isinstance(res, pd.DataFrame):
      res.columns = ["spoiled %d" % i for i in range(res.shape[1])]
      res["more"] = 1
    else:
      res.name = "spoiled"
    res.index = range(len(res))


@kind
def session(sc):
  build.REFS = objs = []
  dbs = []
  if any("how" in st for st in sc["steps"]):
    import bq
    build.SQL = True
    dbs = [bq.Database(frame(tb), seed=i) for i, tb in enumerate(sc["tables"])]
  try:
    return steps_of(sc, objs, dbs)
  finally:
    build.SQL = False


def steps_of(sc, objs, dbs):
  import copy
  import numpy as np
  for d in sc["defs"]:
    objs.append(build.build(d))
  build.REFS = []
  before = [copy.deepcopy(m) for m in objs]
  tables = [frame(tb) for tb in sc["tables"]]
  pristine = [t.copy(deep=True) for t in tables]
  caches = {}
  outs = []
  for st in sc["steps"]:
    m, df = build.build(st["tree"]) if st.get("temp") else objs[st["m"]], tables[st["t"]]
    sp = split_arg(st["sp"])
    sp0 = copy.deepcopy(sp)
    kw = dict(st.get("kw") or {})
    if st.get("cache"):
      kw["cache"] = caches.setdefault(st["cache"], {})
    if "key" in st:
      kw["cache_key"] = st["key"]
    got = []
    def call(m=m):
      if "how" in st:
        r = m.compute_on_sql("T", sp, dbs[st["t"]].execute, mode=st["how"].get("mode"), **kw)
      else:
        r = m.compute_on(df, sp, **kw)
      got.append(r)
      return r
    build.TRIP = st.get("trip") or None
    np.random.seed(st.get("seed", 0))
    try:
      out = ask(call)
    finally:
      tripped = bool(st.get("trip")) and build.TRIP <= 0
      build.TRIP = None
    if st.get("spoil") and got:
      spoil(got[0])
    why = ""
    if not all(identical(a, b) for a, b in zip(tables, pristine)):
      why = "changed the table"
    elif sp != sp0:
      why = "changed the split columns passed"
    elif not all(a == b and a.name == b.name and a.where == b.where for a, b in zip(objs, before)):
      why = "changed the definition of a metric"
    fresh = out
    if st["drawn"] and not tripped:     # the same draws, by a new object without a cache
      np.random.seed(st.get("seed", 0))
      fresh = ask(lambda: build.build(st["tree"]).compute_on(tables[st["t"]], split_arg(st["sp"])))
    del m, call                         # what is not kept is freed
    outs.append({"out": out, "fresh": fresh, "tripped": tripped, "trace": why})
  return {"outs": outs}


NAMES = {"OLS": "OLS", "Ridge": "Ridge", "Lasso": "Lasso", "ElasticNet": "ElasticNet", "Logistic": "LogisticRegression"}


@kind
def model(sc):
  """A fitted model, and what its columns have to be called."""
  df, sp, t = frame(sc["tb"]), split_arg(sc["sp"]), sc["tree"]
  how = sc.get("how")
  said = io.StringIO()
  if how:
    import bq
    db = bq.Database(df, seed=0)
    build.SQL = True
    try:
      m = build.build(t)
      table = sql_table(how.get("table", "T"), df, db, 0)
      with contextlib.redirect_stdout(said):
        out = ask(lambda: m.compute_on_sql(table, sp, db.execute, mode=how["mode"]))
    finally:
      build.SQL = False
  else:
    m = build.build(t)
    out = ask(lambda: m.compute_on(df, sp))
  ms = [t["kids"][0]["kids"][0]] + members_of(t["kids"][0]["kids"][1])
  names = [build.build(k).name for k in ms]
  name = t.get("name") or "%s(%s ~ %s)" % (NAMES[t["kind"]], names[0], " + ".join(names[1:]))
  return {"out": out, "members": names, "pre": name + " Coefficient: ", "eps": sc.get("eps", "1/10000"),
          "warned": "converge" in said.getvalue(),
          "runs": bool(how) and t["kind"] == "Logistic" and t["penalty"] == "l2" and (out["err"] != "" or "converge" in said.getvalue())
                  and runs_away(t, df, sc["sp"])}


def runs_away(t, df, sp):
  """Whether Newton's method does not get anywhere from where it starts: its steps are too long for some data."""
  import numpy as np
  members = [t["kids"][0]["kids"][0]] + members_of(t["kids"][0]["kids"][1])
  w = [x for x in (t.get("where") or [], t["kids"][0].get("where") or [], t["kids"][0]["kids"][1].get("where") if t["kids"][0]["kids"][1]["op"] == "List" else [])
       for x in (x or [])]
  try:
    d = build.build({"op": "List", "where": w, "kids": members}).compute_on(df, list(sp) + t["by"]).reset_index()
  except Exception:  # pylint: disable=broad-except
    return False
  slices = [x for _, x in d.groupby(list(sp), observed=True)] if sp else [d]
  np.random.seed(42)
  k = len(members) - 1
  start = np.random.random((len(slices), k + t["icept"]))
  C = float(build.Fraction(t["c"]))
  for b, part in zip(start, slices):
    v = part.iloc[:, -len(members):].values.astype(float)
    X = np.hstack([v[:, 1:], np.ones((len(v), 1))]) if t["icept"] else v[:, 1:]
    if not len(v):
      return False
    y = (v[:, 0] == v[:, 0].max()).astype(float)
    pen = np.diag([1 / C] * k + [0] * int(t["icept"])) / len(v)
    for _ in range(t.get("iter", 400)):
      with np.errstate(all="ignore"):
        q = 1 / (1 + np.exp(-X @ b))
      h = X.T @ (X * (q * (1 - q))[:, None]) / len(v) + pen
      if not np.isfinite(h).all() or np.linalg.cond(h) > 1e13:
        return True
      step = np.linalg.solve(h, X.T @ (q - y) / len(v) + pen @ b)
      b = b - step
      if abs(step).max() < t.get("tol", 1e-6):
        break
    else:
      return True
  return False


def members_of(t):
  return t["kids"] if t["op"] == "List" else [t]


@kind
def equal(sc):
  """Which definitions the library takes for the same."""
  import copy
  import numpy as np
  from meterstick import metrics
  ms = [build.build(t) for t in sc["trees"]]
  res = {"raised": "", "eq": [], "blank": [], "fp": [], "copies": [], "marks": [], "hs": [], "outs": []}
  def compare():
    res["eq"] = [[bool(a == b) for b in ms] for a in ms]
    res["fp"] = [[a.get_fingerprint() == b.get_fingerprint() for b in ms] for a in ms]
    hs = [hash(m) for m in ms]
    res["hs"] = [hs.index(h) for h in hs]
    for m, t in zip(ms, sc["trees"]):
      again, c = build.build(t), copy.deepcopy(m)
      res["copies"].append(bool(m == again and again == m and hash(m) == hash(again) and m == c and hash(m) == hash(c)))
      res["marks"].append(bool(m.get_fingerprint() == again.get_fingerprint() == c.get_fingerprint()))
    plain = [copy.deepcopy(m) for m in ms]
    for m in plain:
      for a in m.traverse():
        if isinstance(a, metrics.Metric):
          a.name = "m"
    res["blank"] = [[bool(a == b) for b in plain] for a in plain]
  try:
    compare()
  except Exception as e:  # pylint: disable=broad-except
    res["raised"] = error(e)["err"]
  tables = [frame(tb) for tb in sc["tables"]]
  for t in sc["trees"]:
    outs = []
    for c in sc["cases"]:
      np.random.seed(1)
      outs.append(ask(lambda: build.build(t).compute_on(tables[c["t"]], split_arg(c["sp"]))))
    res["outs"].append(outs)
  return res


import builder  # noqa: E402,F401  their kinds of scenarios
import shown  # noqa: E402,F401
