"""What the classes that write queries do (C20)."""
import sqlite3

import build
import record
from record import kind


def squeeze(s):
  return " ".join(str(s).split())


def column(sql, f, of, title):
  return sql.Column(of, f + "({})", title)


# ---- columns -------------------------------------------------------------------------

@kind
def titles(sc):
  """Additions to collections of columns. ops: ["A", expression, title] and ["B", ..] add to one of two collections,
  ["R", n] adds the n-th column ever made again, ["J"] adds the second collection to the first, ["P"] prints."""
  from meterstick import sql
  lists = {"A": sql.Columns(), "B": sql.Columns()}
  made, home, own, steps = [], [], [], []
  for op in sc["ops"]:
    if op[0] in "AB":
      new = lambda: sql.Column(op[1], "{}", op[2]) if op[2] else sql.Column(op[1])
      own.append(new().alias)
      made.append(new())
      home.append(op[0])
      lists[op[0]].add(made[-1] if len(made) % 2 else [made[-1]])
    elif op[0] == "R":
      if home[op[1]]:
        lists[home[op[1]]].add(made[op[1]])
    elif op[0] == "J":
      moved = [id(c) for c in lists["B"]]
      lists["A"].add(lists["B"])
      # a second column with an expression of B is not in B: nothing tells it of new titles
      home = ["" if h == "" or (h == "B" and id(c) not in moved) else "A" for c, h in zip(made, home)]
      lists["B"] = sql.Columns()
    elif op[0] == "P":
      str(lists["A"]), lists["A"].as_groupby()
    steps.append({"A": [[c.expression, c.alias] for c in lists["A"]], "B": [[c.expression, c.alias] for c in lists["B"]],
                  "made": [{"e": c.expression, "a": c.alias, "home": h, "own": o} for c, h, o in zip(made, home, own)],
                  "text": [squeeze(t) for t in str(lists["A"]).split(",\n")] if len(lists["A"]) else [],
                  "group": lists["A"].as_groupby().split(", ") if len(lists["A"]) else []})
  return {"steps": steps}


# ---- arithmetic ------------------------------------------------------------------------

def arith(sql, t):
  o = t["o"]
  if o == "var":
    return sql.Column(t["v"])
  if o == "const":
    return build.const(t["v"])
  a = [arith(sql, k) for k in t["kids"]]
  if o == "neg":
    return -a[0]
  return build.ARITH[o](*a)


def database(tb):
  import bq
  return bq.Database(record.frame(tb), seed=0)


@kind
def columns(sc):
  """Expressions made of columns, evaluated on every row."""
  from meterstick import sql
  db = database(sc["tb"])
  cols = [arith(sql, t).set_alias("c%d" % i) for i, t in enumerate(sc["exprs"])]
  df = db.execute(sql.Sql(sql.Columns([sql.Column("t")] + cols), "T"))
  df = df.sort_values("t")
  return {"out": [[build.rational(r[c.alias]) for c in cols] for _, r in df.iterrows()], "tcol": [build.rational(v) for v in df["t"]]}


# ---- filters -----------------------------------------------------------------------------

@kind
def filters(sc):
  """The rows which a bunch of conditions, added in some ways, lets through."""
  from meterstick import sql
  db = database(sc["tb"])
  f = sql.Filters(sc["text"][0])
  for a in sc["text"][1:]:
    f.add(a)
  q = sql.Sql(sql.Column("t"), "T", f)
  inner = sql.Sql(None, "T", sc["text"][0])
  for a in sc["text"][1:]:
    inner = sql.Sql(None, inner, a)
  outs = []
  for s in (q, sql.Sql(sql.Column("t"), inner), sql.Sql(sql.Column("t", "{}", "k", filters=f), "T")):
    df = db.execute(s)
    outs.append(sorted(str(build.rational(v)) for v in df.iloc[:, 0] if v == v))
  return {"outs": outs}


# ---- queries -------------------------------------------------------------------------------

def cond(sql_where, names):
  return [build.where_str(dict(c, col=names.get(c["col"], c["col"]))) for c in sql_where]


@kind
def subqueries(sc):
  """Queries collected in WITH clauses. steps: {ds, how: add/merge, name, src: "T" or index, where, group, cols: [[f, of, title]..]};
  of: a column of T, or the number of a column of src. nest: a WITH clause taken into another by asking from a query that has it."""
  from meterstick import sql
  build.SQL = True
  try:
    db = database(sc["tb"])
    stores = [sql.Datasources(), sql.Datasources()]
    made, outs = [], []
    for st in sc["steps"]:
      src = st["src"]
      if src < 0:
        names, table = {}, "T"
      else:
        names = {"c%d" % i: c.alias for i, c in enumerate(made[src]["cols"])}
        table = made[src]["alias"]
      cols = [sql.Column(names.get(of, of), f + "({})", title) for f, of, title in st["cols"]]
      q = sql.Sql(sql.Columns(cols), table, cond(st["where"], names) or None, sql.Columns(st["group"]))
      ds = stores[st["ds"]]
      alias = getattr(ds, st["how"])(sql.Datasource(q, st["name"]))
      made.append({"alias": alias, "cols": cols, "st": st, "q": q})
    def asked(i, with_data):
      m = made[i]
      some = list(dict.fromkeys(c.alias for c in m["cols"]))
      m["pick"] = ["v%d" % some.index(c.alias) for c in m["cols"]]
      return sql.Sql(sql.Columns(m["st"]["group"]).add([sql.Column(a, alias="v%d" % j) for j, a in enumerate(some)]),
                     sql.Datasource(m["alias"]), with_data=with_data)
    def answer(q, i):
      def f():
        df = db.execute(q)
        g = made[i]["st"]["group"]
        return (df.set_index(g) if g else df)[made[i]["pick"]]
      return record.ask(f)
    for i, m in enumerate(made):
      outs.append(answer(asked(i, stores[m["st"]["ds"]]), i))
    def stacked(i):
      """The query, asking from a query which asks from ..., each the FROM of the next."""
      st = made[i]["st"]
      if st["src"] < 0:
        names, src = {}, "T"
      else:
        src, below = stacked(st["src"])
        names = {"c%d" % j: c.alias for j, c in enumerate(below)}
      w = cond(st["where"], names) or None
      if st["apart"]:
        src, w = sql.Sql(None, src, w), None
      cols = [sql.Column(names.get(of, of), f + "({})", title) for f, of, title in st["cols"]]
      return sql.Sql(sql.Columns(cols), src, w, sql.Columns(st["group"])), cols
    stacks = []
    for i, m in enumerate(made):
      q, cols = stacked(i)
      if m["st"]["last"]:
        q = sql.Sql(None, q, cond(m["st"]["last"], {"c%d" % j: c.alias for j, c in enumerate(cols)}))
      g = m["st"]["group"]
      stacks.append(record.ask(lambda: (lambda df: (df.set_index(g) if g else df)[[c.alias for c in cols]])(db.execute(q))))
    nested = {"err": "none"}
    if "nest" in sc:
      i = sc["nest"]
      inner = asked(i, stores[1])
      cols = [sql.Column(a) for a in made[i]["st"]["group"] + sorted(set(made[i]["pick"]))] if sc["nestcols"] else None
      nested = answer(sql.Sql(cols, inner, with_data=stores[0]), i)
    twice = [str(s) for s in stores] == [str(s) for s in stores]
    return {"outs": outs, "stacks": stacks, "nested": nested, "twice": twice, "texts": [squeeze(s) for s in stores], "alias": [m["alias"] for m in made]}
  finally:
    build.SQL = False


# ---- the queries of metrics ----------------------------------------------------------------

def asks_from(ts):
  """The names after FROM and JOIN."""
  return [t.strip("`") for k, t in zip(ts, ts[1:]) if k.upper() in ("FROM", "JOIN") and t not in ("(",) and t.upper() != "UNNEST"]


@kind
def texts(sc):
  """The query of a metric, made several times by the same objects and by others."""
  import bq
  from meterstick import sql
  df = record.frame(sc["tb"])
  db = bq.Database(df, seed=0)
  sp = record.split_arg(sc["sp"])
  build.SQL = True
  try:
    m, m2 = build.build(sc["tree"]), build.build(sc["tree"])
    table = record.sql_table(sc["how"].get("table", "T"), df, db, sc.get("seed", 0))
    was = str(table)
    qs = []
    try:
      q = m.to_sql(table, sp)
      qs = [str(q), str(q), str(m.to_sql(table, sp)), str(m2.to_sql(table, sp))]
    except NotImplementedError:
      return {"ok": False, "same": True, "parts": [], "main": [], "untouched": True}
    parts, main = bq.with_parts(bq.tokens(qs[0]))
    return {"ok": True, "same": len(set(qs)) == 1, "untouched": str(table) == was,
            "parts": [{"name": n.strip("`"), "asks": asks_from(b)} for n, b in parts], "main": asks_from(main)}
  finally:
    build.SQL = False
