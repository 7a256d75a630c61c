"""Makes the grain package of /repo's *current* working tree importable.

* the C++ index-shuffle module and the protobuf module are rebuilt from the
  current sources into a scratch directory whenever the build products lying in
  /repo were not made from exactly these sources;
* nothing is written under /repo.
"""
import atexit
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

# A scratch copy can be checked while developing (tools/mut.py).
REPO = os.environ.get("MC_DEV_REPO", "/repo")
EXT = "grain/_src/python/experimental/index_shuffle"
SO_MOD = "grain._src.python.experimental.index_shuffle.python.index_shuffle_module"
SO = EXT + "/python/index_shuffle_module.so"

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "2")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True

_scratch = None


def scratch() -> str:
  """A scratch directory, removed when the process that made it ends."""
  global _scratch
  if _scratch is None:
    _scratch = tempfile.mkdtemp(prefix="grain_mc_")
    owner = os.getpid()

    def _rm(d=_scratch, owner=owner):
      if os.getpid() == owner:
        shutil.rmtree(d, ignore_errors=True)

    atexit.register(_rm)
  return _scratch


def _find(exts, exclude_test=False, under="grain"):
  out = []
  for root, _, files in os.walk(os.path.join(REPO, under)):
    for f in files:
      if f.endswith(exts) and not (exclude_test and f.endswith("_test.cc")):
        out.append(os.path.relpath(os.path.join(root, f), REPO))
  return sorted(out)


def _stamp(files):
  """The stamp /opt/vp/build.sh records for its products."""
  lines = ""
  for f in list(files) + ["/opt/vp/build.sh"]:
    with open(os.path.join(REPO, f), "rb") as fh:
      lines += hashlib.sha256(fh.read()).hexdigest() + "  " + f + "\n"
  return hashlib.sha256(lines.encode()).hexdigest()


def _recorded(name):
  try:
    with open("/opt/vp/state/" + name) as f:
      return f.read().strip()
  except OSError:
    return None


def _load_ext():
  srcs = _find((".cc", ".h"))
  so = os.path.join(REPO, SO)
  try:
    fresh = os.path.exists(so) and _recorded("ext") == _stamp(srcs)
  except OSError:
    fresh = False
  if fresh:
    return
  cc = _find((".cc",), exclude_test=True, under=EXT)
  out = os.path.join(scratch(), "index_shuffle_module.so")
  inc = subprocess.run(
      [sys.executable, "-m", "pybind11", "--includes"],
      capture_output=True, text=True, check=True).stdout.split()
  subprocess.run(
      ["g++", "-std=c++17", "-O2", "-g0", "-fPIC", "-shared",
       "-fvisibility=hidden", "-w", "-I.", *inc, *cc, "-o", out,
       "-labsl_strings", "-labsl_strings_internal",
       "-labsl_raw_logging_internal"],
      cwd=REPO, check=True)
  loader = importlib.machinery.ExtensionFileLoader(SO_MOD, out)
  spec = importlib.util.spec_from_file_location(SO_MOD, out, loader=loader)
  mod = importlib.util.module_from_spec(spec)
  loader.exec_module(mod)
  sys.modules[SO_MOD] = mod


def _load_protos():
  protos = _find((".proto",))
  outs = [p[:-len(".proto")] + "_pb2.py" for p in protos]
  if _recorded("proto") == _stamp(protos) and all(
      os.path.exists(os.path.join(REPO, o)) for o in outs):
    return
  d = os.path.join(scratch(), "pb")
  os.makedirs(d, exist_ok=True)
  subprocess.run([sys.executable, "-m", "grpc_tools.protoc", "-I.",
                  "--python_out=" + d, *protos], cwd=REPO, check=True)
  for o in outs:
    name = o[:-3].replace("/", ".")
    spec = importlib.util.spec_from_file_location(name, os.path.join(d, o))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    sys.modules[name] = mod


_booted = False


def boot():
  """Builds what is stale and imports grain from /repo."""
  global _booted
  if _booted:
    return
  _booted = True
  if sys.path[:1] != [REPO]:
    sys.path.insert(0, REPO)
  import logging as pylogging
  pylogging.disable(pylogging.CRITICAL)
  _load_ext()
  _load_protos()
  import grain  # pylint: disable=g-import-not-at-top
  assert os.path.realpath(grain.__file__).startswith(REPO + "/"), grain.__file__
  from absl import flags
  if not flags.FLAGS.is_parsed():
    flags.FLAGS(["mc"])
  from absl import logging as absl_logging
  absl_logging.set_verbosity(absl_logging.FATAL)
