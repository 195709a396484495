"""Environment of every check: where things are, and importing the library under test."""
import os, sys, tempfile, shutil, atexit, warnings, contextlib, io

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MS_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NPROC = int(os.environ.get("MS_NPROC", "8"))

_scratch = None


def scratch():
  """A private directory, removed at exit."""
  global _scratch
  if _scratch is None:
    _scratch = tempfile.mkdtemp(prefix="msverif-")
    pid = os.getpid()

    def rm():
      if os.getpid() == pid:
        shutil.rmtree(_scratch, ignore_errors=True)
    atexit.register(rm)
  return _scratch


def import_library():
  """Imports meterstick from the working tree of the repository."""
  sys.dont_write_bytecode = True
  root = os.path.join(scratch(), "pkgroot")
  if not os.path.isdir(root):
    os.makedirs(root)
    os.symlink(REPO, os.path.join(root, "meterstick"))
  if root not in sys.path:
    sys.path.insert(0, root)
  warnings.simplefilter("ignore")
  import numpy as np
  np.seterr(all="ignore")
  import meterstick
  assert os.path.realpath(os.path.dirname(meterstick.__file__)) == os.path.realpath(REPO), meterstick.__file__
  return meterstick


@contextlib.contextmanager
def quiet():
  """Swallows what the library prints, returning it in the buffer."""
  buf = io.StringIO()
  with contextlib.redirect_stdout(buf), warnings.catch_warnings():
    warnings.simplefilter("ignore")
    yield buf
