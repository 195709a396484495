"""Running TLC on a module with a batch of recorded traces."""
import json, os, re, subprocess, shutil, threading, glob
from env import SPEC, scratch

JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
_lock = threading.Lock()


class MachineryError(Exception):
  pass


def classes():
  """Compiles the TLC overrides into the scratch directory (about a second)."""
  with _lock:
    d = os.path.join(scratch(), "classes")
    if not os.path.isdir(d):
      t = d + ".tmp"
      os.makedirs(t, exist_ok=True)
      src = sorted(glob.glob(os.path.join(SPEC, "java", "*.java")))
      r = subprocess.run(["javac", "-nowarn", "-cp", JAR, "-d", t] + src, capture_output=True, text=True)
      if r.returncode:
        raise MachineryError("javac: " + r.stderr)
      os.rename(t, d)
    return d


def run(module, cfg, env=None, workers=8, heap="3g", timeout=800, extra=(), simulate=None, cwd=None):
  """Runs TLC; returns its output.  Raises MachineryError on anything but a clean run."""
  c = classes()
  with _lock:
    n = run.count = getattr(run, "count", 0) + 1
  meta = os.path.join(scratch(), "meta%d" % n)
  cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
         "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:VNum",
         "-Dtlc2.tool.impl.Tool.cdot=true",
         "-DTLA-Library=" + SPEC,
         "-cp", ":".join([JAR, CM, c]), "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
         "-nowarning", "-workers", str(workers), "-config", os.path.join(SPEC, cfg)] + list(extra)
  if simulate:
    cmd += ["-simulate", simulate]
  cmd.append(os.path.join(SPEC, module + ".tla"))
  e = dict(os.environ)
  e.update(env or {})
  e.pop("JAVA_TOOL_OPTIONS", None)
  try:
    r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=cwd or scratch())
  except subprocess.TimeoutExpired:
    raise MachineryError("TLC timed out on %s" % module)
  finally:
    shutil.rmtree(meta, ignore_errors=True)
  return r.returncode, r.stdout + r.stderr


def stats(out):
  m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
  return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def validate(module, cfg, events, heap="6g", workers=8, chunk=None, timeout=800, env=None):
  """Validates recorded events (JSON values with an "id") with a trace specification.

  The specification prints one line  <<"V", id, verdict, detail>>  per event;
  every event must get exactly one verdict.  Returns {id: (verdict, detail)}, stats.
  """
  n = getattr(validate, "count", 0) + 1
  validate.count = n
  path = os.path.join(scratch(), "trace%d.ndjson" % n)
  with open(path, "w") as f:
    for ev in events:
      f.write(json.dumps(ev) + "\n")
  e = {"MS_TRACE": path}
  e.update(env or {})
  rc, out = run(module, cfg, e, workers=workers, heap=heap, timeout=timeout)
  verdicts = {}
  for m in re.finditer(r'^"V\|([^|]*)\|([^|]*)\|(.*)"$', out, re.M):
    verdicts[m.group(1)] = (m.group(2), m.group(3))
  if rc != 0 or len(verdicts) != len(events):
    keep = "/tmp/ms-tlc-failure"
    try:
      os.makedirs(keep, exist_ok=True)
      shutil.copy(path, os.path.join(keep, "trace.ndjson"))
      open(os.path.join(keep, "out.txt"), "w").write(out)
    except OSError:
      pass
    tail = "\n".join(l for l in out.splitlines() if not l.startswith('"V|') and "Parsing" not in l and "Semantic" not in l)[-3000:]
    raise MachineryError("TLC rc=%d, %d verdicts for %d events\n%s" % (rc, len(verdicts), len(events), tail))
  os.unlink(path)
  return verdicts, stats(out)
