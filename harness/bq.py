"""Runs the queries the library writes for BigQuery on SQLite.

The generated text is tokenised and rewritten: the functions SQLite lacks are
registered from Python, and what SQLite understands differently (division of
integers, double-quoted strings, arrays) is expressed so that it means what it
means in BigQuery.  Rows of a result come in no particular order unless the
query asks for one, so they are shuffled.
"""
import json, math, random, re, sqlite3

import pandas as pd


INDEX = "meterstick_resample_idx"


class QueryError(Exception):
  """What the database would report for a query it cannot run."""


TOKEN = re.compile(r"""\s+|`[^`]*`|"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|0[xX][0-9A-Fa-f]+|\d+\.\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|\d+(?:[eE][+-]?\d+)?|[A-Za-z_$@][A-Za-z_0-9$@]*|<=|>=|!=|<>|==|\|\||.""", re.S)


def tokens(q):
  return [t for t in TOKEN.findall(q) if not t.isspace()]


def close(ts, i):
  """Index of the bracket that closes ts[i]."""
  pair = {"(": ")", "[": "]"}
  depth = 0
  for j in range(i, len(ts)):
    if ts[j] in "([" and len(ts[j]) == 1:
      depth += 1
    elif ts[j] in ")]" and len(ts[j]) == 1:
      depth -= 1
      if depth == 0:
        return j
  raise QueryError("unbalanced brackets")


def up(ts, i):
  return ts[i].upper() if 0 <= i < len(ts) else ""


def split_top(ts, sep):
  """Splits at the top-level occurrences of a keyword or comma."""
  out, cur, depth = [], [], 0
  for t in ts:
    if t in ("(", "["):
      depth += 1
    elif t in (")", "]"):
      depth -= 1
    if depth == 0 and t.upper() == sep:
      out.append(cur)
      cur = []
    else:
      cur.append(t)
  out.append(cur)
  return out


def find_top(ts, kw):
  depth = 0
  for i, t in enumerate(ts):
    if t in ("(", "["):
      depth += 1
    elif t in (")", "]"):
      depth -= 1
    elif depth == 0 and t.upper() == kw:
      return i
  return -1


RENAME = {"IF": "IIF", "POWER": "BQ_POWER", "POW": "BQ_POWER", "LOG": "BQ_LN", "LN": "BQ_LN", "SQRT": "BQ_SQRT",
          "CEILING": "BQ_CEIL", "CEIL": "BQ_CEIL", "RAND": "BQ_RAND", "CONCAT": "BQ_CONCAT"}
KEYWORDS = {"AND", "OR", "NOT", "THEN", "ELSE", "WHEN", "AS", "FROM", "WHERE", "GROUP", "ORDER", "BY", "END", "CASE",
            "SELECT", "BETWEEN", "IN", "IS", "ON", "USING"}


def primary_end(ts, i):
  """End (exclusive) of the operand that starts at ts[i]."""
  if ts[i] in ("-", "+"):
    return primary_end(ts, i + 1)
  if ts[i] == "(":
    return close(ts, i) + 1
  j = i + 1
  while j < len(ts) and ts[j] == ".":
    j += 2
  if j < len(ts) and ts[j] == "(":
    j = close(ts, j) + 1
    if up(ts, j) == "OVER":
      j = close(ts, j + 1) + 1
  return j


def rewrite(ts):
  out = []
  i = 0
  n = len(ts)
  while i < n:
    t = ts[i]
    u = t.upper()
    nxt = ts[i + 1] if i + 1 < n else ""
    if t[0] == '"':
      s = json.loads(t) if "\\" in t else t[1:-1]
      out.append("'" + s.replace("'", "''") + "'")
    elif t[0] == "'":
      out.append(t)
    elif t[:2].lower() == "0x":
      out.append("%d.0" % int(t, 16))
    elif u == "SAFE" and nxt == ".":
      if up(ts, i + 2) not in ("SQRT", "POWER", "POW", "LN", "LOG"):
        raise QueryError("SAFE.%s" % ts[i + 2])
      out.append("SAFE_" + {"POW": "POWER", "LOG": "LN"}.get(up(ts, i + 2), up(ts, i + 2)))
      i += 2
    elif u == "AS" and up(ts, i + 1) in ("STRING", "FLOAT64", "INT64"):
      out += ["AS", {"STRING": "TEXT", "FLOAT64": "REAL", "INT64": "INTEGER"}[up(ts, i + 1)]]
      i += 1
    elif u == "APPROX_QUANTILES" and nxt == "(":
      j = close(ts, i + 1)
      args = split_top(ts[i + 2:j], ",")
      if len(args) != 2 or ts[j + 1] != "[" or up(ts, j + 2) not in ("OFFSET", "SAFE_OFFSET"):
        raise QueryError("APPROX_QUANTILES")
      k = close(ts, j + 1)
      off = ts[j + 4:k - 1]
      if not (len(off) == 1 and off[0].isdigit() and 0 <= int(off[0]) <= int(args[1][0])):
        raise QueryError("array index out of bounds")
      out += ["APPROX_Q", "("] + rewrite(args[0]) + [","] + args[1] + [","] + off + [")"]
      i = k
    elif u == "ARRAY_AGG" and nxt == "(":
      j = close(ts, i + 1)
      body = ts[i + 2:j]
      o = find_top(body, "ORDER")
      l = find_top(body, "LIMIT")
      if o < 0 or l < o:
        raise QueryError("ARRAY_AGG")
      expr = body[:o]
      drop = 0
      if len(expr) > 2 and [a.upper() for a in expr[-2:]] == ["IGNORE", "NULLS"]:
        drop, expr = 1, expr[:-2]
      key = body[o + 2:l]
      desc = 0
      if key[-1].upper() in ("DESC", "ASC"):
        desc, key = int(key[-1].upper() == "DESC"), key[:-1]
      lim = body[l + 1:]
      res = ["ARRAY_TOP", "("] + rewrite(expr) + [","] + rewrite(key) + [",", str(drop), ",", str(desc), ","] + lim + [")"]
      i = j
      if j + 1 < n and ts[j + 1] == "[":
        k = close(ts, j + 1)
        if up(ts, j + 2) not in ("SAFE_OFFSET", "OFFSET"):
          raise QueryError("ARRAY_AGG")
        res = [up(ts, j + 2) + "_OF", "("] + res + [","] + ts[j + 4:k - 1] + [")"]
        i = k
      out += res
    elif u == "UNNEST" and nxt == "(":
      j = close(ts, i + 1)
      body = ts[i + 2:j]
      if up(ts, j + 1) != "AS":
        raise QueryError("UNNEST without alias")
      alias = ts[j + 2]
      if body[0].upper() == "GENERATE_ARRAY":
        a, b = split_top(body[2:-1], ",")
        if b[0].isdigit() and len(b) == 1:
          arr = "'" + json.dumps(list(range(int(a[0]), int(b[0]) + 1))) + "'"
        else:                      # a different array on every row of the table joined
          arr = " ".join(["GEN_ARRAY", "("] + rewrite(a) + [","] + rewrite(b) + [")"])
          out += ["json_each", "(", arr, ")", "AS", alias + "_arr"]
          i = j + 3
          continue
      elif body[0] == "[":
        vals = [json.loads(v[0]) if v[0][0] == '"' else v[0][1:-1] if v[0][0] == "'" else
                json.loads("".join(v)) for v in split_top(body[1:-1], ",") if v]
        arr = "'" + json.dumps(vals).replace("'", "''") + "'"
      else:
        arr = " ".join(rewrite(body))
      out += ["(", "SELECT", "value", "AS", alias, "FROM", "json_each", "(", arr, ")", ")", "AS", alias]
      i = j + 2
    elif t == "/":
      e = primary_end(ts, i + 1)
      out += ["/", "1.0", "/", "NONZERO", "("] + rewrite(ts[i + 1:e]) + [")"]
      i = e - 1
    elif u == "EXCEPT" and nxt == "(" and out and out[-1] == "*":
      i = close(ts, i + 1)       # the columns stay; nothing may refer to them
    elif u in RENAME and nxt == "(":
      out.append(RENAME[u])
    else:
      out.append(t)
    i += 1
  return out


def with_parts(ts):
  """The named subqueries of a WITH clause and the query after it."""
  if not ts or ts[0].upper() != "WITH":
    return [], ts
  parts = []
  i = 1
  while True:
    name = ts[i]
    if ts[i + 1].upper() != "AS" or ts[i + 2] != "(":
      raise QueryError("WITH clause")
    j = close(ts, i + 2)
    parts.append((name, ts[i + 3:j]))
    i = j + 1
    if i < len(ts) and ts[i] == ",":
      i += 1
    else:
      return parts, ts[i:]


# ---- functions ---------------------------------------------------------------

def nonzero(v):
  if v is not None and v == 0:
    raise ZeroDivisionError("division by zero")
  return v


def safe(f):
  def g(*a):
    if any(x is None for x in a):
      return None
    try:
      v = f(*a)
    except (ArithmeticError, ValueError):
      return None
    return v if isinstance(v, (int, float)) and math.isfinite(v) else None
  return g


def strict(f):
  def g(*a):
    return None if any(x is None for x in a) else f(*a)
  return g


def power(a, b):
  v = float(a) ** b
  if isinstance(v, complex):
    raise ValueError
  return v


class Agg:
  def __init__(self):
    self.a = []

  def step(self, *v):
    if all(x is not None for x in v):
      self.a.append(v)


def moment(kind):
  class M(Agg):
    def finalize(self):
      n = len(self.a)
      samp = kind.endswith("SAMP")
      if n == 0 or (samp and n < 2):
        return None
      if kind.startswith("CO"):
        xs, ys = [float(v[0]) for v in self.a], [float(v[1]) for v in self.a]
      else:
        xs = ys = [float(v[0]) for v in self.a]
      mx, my = math.fsum(xs) / n, math.fsum(ys) / n
      c = math.fsum((x - mx) * (y - my) for x, y in zip(xs, ys))
      if kind == "CORR":
        vx, vy = math.fsum((x - mx) ** 2 for x in xs), math.fsum((y - my) ** 2 for y in ys)
        if n < 2 or vx <= 0 or vy <= 0:
          return None
        return c / math.sqrt(vx) / math.sqrt(vy)
      c /= n - 1 if samp else n
      return math.sqrt(max(c, 0)) if kind.startswith("STD") else c
  return M


class CountIf:
  def __init__(self):
    self.n = 0

  def step(self, v):
    self.n += bool(v)

  def finalize(self):
    return self.n


class ApproxQ:
  """The k-th of m quantile boundaries; interpolated, since any value between the neighbours would do."""
  def __init__(self):
    self.a, self.k, self.m = [], 0, 1

  def step(self, v, m, k):
    self.m, self.k = m, k
    if v is not None:
      self.a.append(float(v))

  def finalize(self):
    if not self.a:
      return None
    a = sorted(self.a)
    p = self.k * (len(a) - 1)
    i, r = divmod(p, self.m)
    i = int(i)
    return a[i] if not r else a[i] + (a[i + 1] - a[i]) * r / self.m


class ArrayTop:
  def __init__(self):
    self.a = []
    self.o = None

  def step(self, v, key, drop, desc, limit):
    self.o = (desc, limit)
    if v is None and drop:
      return
    # missing keys come first in ascending order
    self.a.append(((key is not None, key if key is not None else 0), len(self.a), v))

  def finalize(self):
    if not self.a:
      return None
    desc, limit = self.o
    a = sorted(self.a, key=lambda r: r[0], reverse=bool(desc))
    return json.dumps([r[2] for r in a][:limit])


def offset(safe_):
  def f(arr, k):
    if arr is None:
      return None
    a = json.loads(arr)
    if 0 <= k < len(a):
      return a[k]
    if safe_:
      return None
    raise IndexError("array index out of bounds")
  return f


def fingerprint(s):
  """Some hash of a string to a signed 64-bit integer."""
  import hashlib
  return int.from_bytes(hashlib.md5(str(s).encode()).digest()[:8], "big", signed=True)


def as_client(df, labels):
  """Missing numbers are NaN, as in the data frames the database's client makes."""
  for i, c in enumerate(df.columns):
    v = df.iloc[:, i]
    if c not in labels and df.empty:
      df.isetitem(i, v.astype(float))
    elif v.dtype == object and v.isna().any() and not v.map(lambda x: isinstance(x, str)).any():
      df.isetitem(i, v.astype(float))
  return df


class Database:
  """A table T (any name) and a function that runs queries on it."""

  def __init__(self, df, name="T", seed=0, keep=False):
    self.rng = random.Random(seed)
    self.shuffle = random.Random(seed + 1)
    self.con = sqlite3.connect(":memory:")
    self.queries = []
    self.log = []
    self.last = None
    c = self.con
    f = lambda nm, n, fn, det=True: c.create_function(nm, n, self._guard(fn), deterministic=det)
    f("NONZERO", 1, nonzero)
    f("SAFE_DIVIDE", 2, safe(lambda a, b: a / b))
    f("SAFE_SQRT", 1, safe(math.sqrt))
    f("SAFE_POWER", 2, safe(power))
    f("SAFE_LN", 1, safe(math.log))
    f("BQ_POWER", 2, strict(power))
    f("BQ_LN", 1, strict(math.log))
    f("BQ_SQRT", 1, strict(math.sqrt))
    f("BQ_CEIL", 1, strict(lambda v: float(math.ceil(v))))
    f("BQ_CONCAT", -1, strict(lambda *a: "".join(a)))
    f("FARM_FINGERPRINT", 1, strict(fingerprint))
    f("SAFE_OFFSET_OF", 2, offset(True))
    f("OFFSET_OF", 2, offset(False))
    f("GEN_ARRAY", 2, strict(lambda a, b: json.dumps(list(range(int(a), int(b) + 1)))))
    f("BQ_RAND", 0, self.rng.random, False)
    for k in ("VAR_SAMP", "VAR_POP", "STDDEV_SAMP", "STDDEV_POP"):
      c.create_aggregate(k, 1, moment(k))
    for k in ("COVAR_SAMP", "COVAR_POP", "CORR"):
      c.create_aggregate(k, 2, moment(k))
    c.create_aggregate("COUNTIF", 1, CountIf)
    c.create_aggregate("APPROX_Q", 3, ApproxQ)
    c.create_aggregate("ARRAY_TOP", 5, ArrayTop)
    self.load(df, name)

  def _guard(self, fn):
    def g(*a):
      try:
        return fn(*a)
      except Exception as e:
        self.last = e
        raise
    return g

  def load(self, df, name):
    cols = list(df.columns)
    q = lambda c: '"%s"' % c
    kinds = ["REAL" if df[c].dtype.kind == "f" else "INTEGER" if df[c].dtype.kind in "iu" else "TEXT" for c in cols]
    self.labels = {c for c, k in zip(cols, kinds) if k == "TEXT"}
    self.con.execute("CREATE TABLE %s (%s)" % (q(name), ", ".join("%s %s" % (q(c), k) for c, k in zip(cols, kinds))))
    rows = [tuple(None if v != v else v.item() if hasattr(v, "item") else v for v in r)
            for r in df.astype(object).itertuples(index=False)]
    self.con.executemany("INSERT INTO %s VALUES (%s)" % (q(name), ",".join("?" * len(cols))), rows)

  def execute(self, query):
    """The result; the subqueries of the WITH clause are computed once each, in order."""
    query = str(query)
    self.queries.append(query)
    parts, main = with_parts(tokens(query))
    self.last = None
    made = []
    cur = self.con.cursor()
    try:
      for name, body in parts:
        if name.strip("`").lower() in {m.strip("`").lower() for m in made}:
          raise QueryError("two subqueries called %s" % name)
        cur.execute("CREATE TEMP TABLE %s AS %s" % (name, " ".join(rewrite(body))))
        made.append(name)
        cur.execute("PRAGMA temp.table_info(%s)" % name)
        if any(re.search(r":\d+$", c[1]) for c in cur.fetchall()):
          raise QueryError("columns of the same name in %s: %s" % (name, query))
      cur.execute(" ".join(rewrite(main)))
      rows = cur.fetchall()
      names = [d[0] for d in cur.description]
      if len({n.lower() for n in names}) < len(names):
        raise QueryError("columns of the same name in the result of %s" % query)
      for name in reversed(made):    # the results on resamples
        cur.execute("SELECT * FROM temp.%s" % name)
        cols = [d[0] for d in cur.description]
        part = cur.fetchall()
        if INDEX in cols:
          self.log.append(as_client(pd.DataFrame([list(r) for r in part], columns=cols), self.labels))
          break
    except sqlite3.Error as e:
      raise QueryError("%s%s in: %s" % (e, " (%s)" % self.last if self.last else "", query)) from None
    finally:
      cur.close()
      for name in made:
        self.con.execute("DROP TABLE temp.%s" % name)
    if find_top([t.upper() for t in main], "ORDER") < 0:
      self.shuffle.shuffle(rows)
    return as_client(pd.DataFrame([list(r) for r in rows], columns=names), self.labels)
