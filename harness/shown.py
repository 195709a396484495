"""What the table of intervals shows (C22)."""
import contextlib, copy, io, itertools, re
from fractions import Fraction

import numpy as np
import pandas as pd

import build
from record import kind


TAG = re.compile(r"<[^>]*>")
NUMBER = re.compile(r"-?\d+(\.\d+)?(e[+-]?\d+)?")


def reading(text):
  """The number in a text and the rest."""
  text = TAG.sub("", text).strip()
  if text in ("-", ""):
    return text, ""
  if text.startswith("N/A"):
    return "nan", text[3:].strip()
  for a in ("inf", "-inf"):
    if text.startswith(a):
      return a, text[len(a):].strip()
  m = NUMBER.match(text)
  if not m:
    return "unreadable " + text, ""
  f = Fraction(m.group(0))
  return str(f), text[m.end():].strip()


def span(html, cls):
  m = re.search(r'<span class="%s">(.*?)</span>' % cls, html, re.S)
  return m.group(1) if m else None


def cell(html):
  col = "good" if "ci-display-good-change" in html else "bad" if "ci-display-bad-change" in html else ""
  ratio, ci = span(html, "ci-display-ratio"), span(html, "ci-display-ci-range")
  v, uv = reading(re.split(r'<span class="ci-display-ratio">', html)[0])
  if ratio is None:
    return {"v": v, "uv": uv, "r": "", "ur": "", "lo": "", "hi": "", "uc": "", "col": col}
  r, ur = reading(ratio)
  m = re.match(r"\[(.*), (.*)\](.*)$", ci, re.S)
  lo, u1 = reading(m.group(1))
  hi, u2 = reading(m.group(2))
  return {"v": v, "uv": uv, "r": r, "ur": ur, "lo": lo, "hi": hi, "uc": u1 + u2 + m.group(3).strip(), "col": col}


def rawcell(c):
  n = list(c) if isinstance(c, (list, tuple)) else ["nan"] * 4
  n = [build.rational(a) if not isinstance(a, str) else a for a in n]
  return {"v": n[0], "r": n[1], "lo": n[2], "hi": n[3], "uv": "", "ur": "", "uc": "", "col": ""}


def plain(html, raw):
  s = html if raw else TAG.sub("", str(html))
  return build.lab(s)


def table(res, dims, e, agg, raw, desc="Description"):
  """The rows of a formatted table."""
  info = [c for c in res.columns if c in ("Control_Id", "Is_Control", desc)]
  lead = ["Dimensions"] if agg else list(dims)
  head = [c for c in lead + [e] + info if c in res.columns]
  ms = [c for c in res.columns if c not in head]
  rows = []
  for i in range(len(res)):
    r = {c: res[c].iloc[i] for c in res.columns}
    o = {"e": "", "d": "?", "isc": "?", "c": "?"}
    if agg and "Dimensions" in r:
      d = r["Dimensions"]
      if raw:
        o["s"] = [build.lab(d["Dim_%d" % (k + 1)]) for k in range(len(dims))]
        o["e"] = build.lab(d.get("Experiment_Id", ""))
        o["d"] = build.lab(d.get("Description", ""))
        if "Is_Control" in d:
          o["isc"] = str(bool(d["Is_Control"])).upper()
      else:
        s = span(d, "ci-display-dimension")
        o["s"] = s.split(" * ") if s is not None else []
        o["e"] = span(d, "ci-display-experiment-id") or ""
        o["d"] = span(d, "ci-display-description-text") or ""
    else:
      o["s"] = [plain(r[c], raw) for c in dims] if not agg else []
      if e in r:
        o["e"] = plain(r[e], raw)
      if "Control_Id" in r:
        o["c"] = plain(r["Control_Id"], raw)
      if "Is_Control" in r:
        o["isc"] = plain(r["Is_Control"], raw).upper()
      if desc in r:
        o["d"] = plain(r[desc], raw)
    o["cells"] = [rawcell(r[m]) if raw else cell(r[m]) for m in ms]
    rows.append(o)
  return {"err": "", "drawn": True, "rows": rows, "metrics": [str(m) for m in ms], "info": ["Description" if c == desc else c for c in info]}


def failed(ex):
  return {"err": "%s: %s" % (type(ex).__name__, str(ex)[:300]), "rows": [], "metrics": [], "info": [], "kept": True, "drawn": True}


def data(sc):
  o, n = sc["opts"], sc["names"]
  num = lambda v: float("nan") if v == "nan" else float(Fraction(v))
  cols = {}
  for i, d in enumerate(n["dims"]):
    cols[d] = [build.label(r["s"][i], sc["kinds"]["s"][i]) for r in sc["in"]]
    if sc["kinds"]["s"][i] == "str" and sc["cat"]:
      cols[d] = pd.Categorical(cols[d], categories=sc["rank"]["s"][i] + ["unseen"])
  ids = lambda k: [build.label(r[k], sc["kinds"]["e"]) for r in sc["in"]]
  if o["control"] != "noexpr":
    cols[n["e"]] = ids("e")
  if o["control"] == "own":
    cols["Control_Id"] = ids("c")
  cols[n["m"]] = [r["m"] for r in sc["in"]]
  for k in ("v", "r"):
    cols[n[k]] = [num(r[k]) for r in sc["in"]]
  if o["range"]:
    cols[n["range"]] = [num(r["hi"]) - num(r["lo"]) for r in sc["in"]]
  else:
    for k in ("lo", "hi"):
      cols[n[k]] = [num(r[k]) for r in sc["in"]]
  if o["auto"]:
    cols[n["cv"]] = [num(r["cv"]) for r in sc["in"]]
  if o["described"]:
    empty = {"": "", "None": None, "nan": float("nan")}[sc["empty"]]
    cols[n["d"]] = [r["d"] or empty for r in sc["in"]]
  cols["unused"] = list(range(len(sc["in"])))
  df = pd.DataFrame(cols)
  if sc["index"]:
    df.index = [k % 3 for k in range(len(df))]
  return df


def options(sc):
  o, n = sc["opts"], sc["names"]
  ids = lambda e: build.label(e, sc["kinds"]["e"])
  kw = dict(dims=n["dims"] if len(n["dims"]) != 1 or sc["listed"] else n["dims"][0], aggregate_dimensions=o["agg"], show_control=o["show"],
            metric=n["m"], ratio=n["r"], value=n["v"], ci_upper=n["hi"], ci_lower=n["lo"], ci_range=n["range"], control_value=n["cv"],
            expr_id=n["e"], description=n["d"], hide_null_ctrl=o["hide"], display_expr_info=o["info"], auto_decide_control_vals=o["auto"],
            auto_add_description=o["desc"], show_metric_value_when_control_hidden=o["smv"], return_pre_agg_df=o["raw"])
  if sc["fmt"]:
    kw["metric_formats"] = {k: o[f] for k, f in (("Value", "fv"), ("Ratio", "fr")) if o[f] != "absolute" or sc["full"]}
  if o["control"] == "one":
    kw["ctrl_id"] = ids(o["ctrls"][0])
  elif o["control"] == "many":
    kw["ctrl_id"] = {ids(c): [ids(e) for e, k in o["of"].items() if k == c and e != c] for c in o["ctrls"]}
  if o["flip"]:
    kw["flip_color"] = list(o["flip"])
  if o["order"]:
    kw["metric_order"] = list(o["order"])
  if o["sort"]:
    by = []
    for s in o["sort"]:
      col = (s["by"], s["m"]) if s["m"] else n["e"] if s["by"] == "e" else n["dims"][int(s["by"]) - 1]
      a = {"column": col}
      if not s["asc"]:
        a["ascending"] = False
      if s["ord"]:
        a["order"] = [ids(v) if s["by"] == "e" else build.label(v, sc["kinds"]["s"][int(s["by"]) - 1]) for v in s["ord"]]
      by.append(a)
    kw["sort_by"] = by
  return kw


class Page:
  """Catches the HTML which is drawn."""

  def __enter__(self):
    self.out = contextlib.redirect_stdout(io.StringIO())
    self.out.__enter__()
    from IPython.display import HTML
    self.cls, self.was, self.pages = HTML, HTML.__init__, []
    def init(page, data=None, *a, **k):
      self.pages.append(data)
      return self.was(page, data, *a, **k)
    HTML.__init__ = init
    self.width = pd.get_option("display.max_colwidth")
    return self

  def __exit__(self, *_):
    self.out.__exit__(*_)
    self.cls.__init__ = self.was

  def shows(self, formatted):
    """Whether what has been drawn is the table."""
    if len(self.pages) != 1 or pd.get_option("display.max_colwidth") != self.width:
      return False
    tds = [a.strip() for a in re.findall(r"<td(?: [^>]*)?>(.*?)</td>", self.pages[0], re.S)]
    ths = [a.strip() for a in re.findall(r"<th(?: [^>]*)?>(.*?)</th>", self.pages[0], re.S)]
    return ths == [str(c) for c in formatted.columns] and tds == [str(v).strip() for r in formatted.itertuples(index=False) for v in r]


@kind
def display(sc):
  """A table of results given, and the table which shows it."""
  from meterstick import confidence_interval_display as cid
  df, kw = data(sc), options(sc)
  was, was_kw = df.copy(), copy.deepcopy(kw)
  try:
    res = cid.get_formatted_df(df, **kw)
    out = table(res, sc["names"]["dims"], sc["names"]["e"], sc["opts"]["agg"], sc["opts"]["raw"], sc["names"]["d"])
    if not sc["opts"]["raw"]:
      with Page() as page:
        cid.render(df, **kw)
      out["drawn"] = page.shows(res)
  except Exception as ex:  # pylint: disable=broad-except
    out = failed(ex)
  out["kept"] = same(df, was) and kw == was_kw
  return {"out": out}


def same(a, b):
  try:
    pd.testing.assert_frame_equal(a, b, check_exact=True)
    return True
  except AssertionError:
    return False


FIELDS = ("Value", "Ratio", "CI_Lower", "CI_Upper")


def quoted(sc, c, a):
  return a if sc["tb"]["kinds"][c] == "int" else "'%s'" % a


def longrows(res, cond):
  """The rows of a result: slice, experiment, title, value and bounds."""
  rows = []
  names = [n for n in res.index.names if n is not None]
  for i in range(len(res)):
    k = res.index[i]
    k = dict(zip(names, k if isinstance(k, tuple) else (k,))) if names else {}
    for t in res.columns.get_level_values(0).unique():
      v = [build.rational(a) for a in res[t].iloc[i]]
      rows.append({"k": {n: build.lab(a) for n, a in k.items()}, "m": str(t), "v": v})
  return rows


@kind
def results(sc):
  """A computation with intervals, and the table which shows it."""
  o, t = sc["opts"], sc["tree"]
  df = build.frame(sc["tb"])
  sp = sc["sp"][0] if len(sc["sp"]) == 1 else list(sc["sp"]) or None
  out = {"err": "", "rows": [], "metrics": [], "info": [], "kept": True, "drawn": True}
  try:
    np.random.seed(sc["seed"])
    how = {"melted": True} if sc["melted"] else {}
    m = build.build(t)
    res = m.compute_on(df, sp, **how)
    for _ in range(sc["again"]):
      np.random.seed(sc["seed"])
      res = m.compute_on(df, sp, **how)
    from build import utils
    wide = utils.unmelt(res) if sc["melted"] else res
    rows = longrows(wide, sc["cond"])
    titles = [str(a) for a in wide.columns.get_level_values(0).unique()]
    shown = titles
    if t["kids"][0]["op"] in ("Percent", "Absolute"):
      shown = [str(c) for c in build.build(t["kids"][0]["kids"][0]).compute_on(df).columns]
    elif sc["cond"]:
      shown = [re.sub(" (Percent|Absolute) Change$", "", a) for a in titles]
  except Exception as ex:  # pylint: disable=broad-except
    return {"refused": "%s: %s" % (type(ex).__name__, str(ex)[:200]), "rows": [], "titles": [], "shown": [], "out": out, "flip": [], "order": [], "sort": [],
            "dims": [], "dimno": {"0": 0}, "rank": {"s": [], "m": [], "e": []}, "quoted": []}
  kw = {}
  for k, a in (("aggregate_dimensions", "agg"), ("show_control", "show"), ("hide_null_ctrl", "hide"), ("display_expr_info", "info"),
               ("auto_add_description", "desc"), ("show_metric_value_when_control_hidden", "smv")):
    if o[a] != "default":
      kw[k] = o[a] == "yes"
  if sc["fmt"]:
    kw["metric_formats"] = {"Value": o["fv"], "Ratio": o["fr"]}
  if o["flip"]:
    kw["flip_color"] = [shown[i % len(shown)] for i in o["flip"]]
  if o["order"]:
    kw["metric_order"] = list(dict.fromkeys(shown[i % len(shown)] for i in o["order"]))
  dims = [d for d in wide.index.names if d is not None and d not in sc["cond"]]
  ord_ = sc["tb"]["ord"]
  ids = itertools.product(*[[quoted(sc, c, a) for a in ord_[c]] for c in sc["cond"]])
  more = {"dims": dims, "dimno": dict({"0": 0}, **{str(i + 1): i + 1 for i in range(len(dims))}),
          "rank": {"s": [ord_[d] for d in dims], "m": sorted(shown),
                   "e": ord_[sc["cond"][0]] if len(sc["cond"]) == 1 else sorted("(%s)" % ", ".join(i) for i in ids)},
          "quoted": [{a: quoted(sc, c, a) for a in ord_[c]} for c in sc["cond"]]}
  sort = []
  for a in o["sort"]:
    if a["by"] == "e" and len(sc["cond"]) != 1 or a["by"] == "dim" and not dims:
      continue
    if a["by"] == "dim":
      a = dict(a, by=str(a["m"] % len(dims) + 1))
    m = shown[a["m"] % len(shown)] if a["by"] in FIELDS else ""
    sort.append({"by": a["by"], "m": m, "asc": a["asc"], "ord": []})
    col = (a["by"], m) if m else sc["cond"][0] if a["by"] == "e" else dims[int(a["by"]) - 1]
    kw.setdefault("sort_by", []).append(dict({"column": col}, **({} if a["asc"] else {"ascending": False})))
  raw = {"return_pre_agg_df": True} if o["raw"] else {"return_formatted_df": True}
  if o["raw"] and o["both"]:
    raw["return_formatted_df"] = True
  was, was_kw = res.copy(), copy.deepcopy(kw)
  e = sc["cond"][0] if len(sc["cond"]) == 1 else "_expr_id"
  try:
    f = res.display(**kw, **raw)
    out = table(f, dims, e, o["agg"] != "no", o["raw"])
    if not o["raw"]:
      with Page() as page:
        res.display(**kw)
      out["drawn"] = page.shows(f)
  except Exception as ex:  # pylint: disable=broad-except
    out = failed(ex)
  out["kept"] = same(res, was) and kw == was_kw
  return {**more, "refused": "", "rows": rows, "titles": titles, "shown": shown, "out": out,
          "flip": kw.get("flip_color", []), "order": kw.get("metric_order", []), "sort": sort}
