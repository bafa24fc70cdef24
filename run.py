"""Entry point: run.py <ID> [quick|thorough] | run.py --replay <file>."""
import importlib
import json
import os
import shutil
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
for p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
  if p not in sys.path:
    sys.path.append(p)  # hypothesis; numpy and friends come from the main venv
sys.dont_write_bytecode = True


def main(argv):
  os.environ.setdefault("MPLBACKEND", "Agg")
  rep = None
  if argv and argv[0] == "--replay":
    with open(argv[1]) as f:
      rep = json.load(f)
    prop, tier = rep["property"], "quick"
  else:
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
  seed = int(os.environ.get("VERIF_SEED", "1") or 1)
  mpl = tempfile.mkdtemp(prefix="verif-mpl-")
  os.environ["MPLCONFIGDIR"] = mpl
  if os.path.isdir("/opt/vp/mplconfig"):
    shutil.copytree("/opt/vp/mplconfig", mpl, dirs_exist_ok=True)
  pid = os.getpid()
  try:
    from vlib import core, repo
    repo.install()
    try:
      mod = importlib.import_module("checks." + prop)
    except Exception:  # pylint: disable=broad-except
      traceback.print_exc()
      print(f"HARNESS ERROR: cannot load the check of {prop}", file=sys.stderr)
      return 2
    if rep:
      return core.replay(mod, rep)
    return core.run_check(mod, tier, seed)
  finally:
    if os.getpid() == pid:
      shutil.rmtree(mpl, ignore_errors=True)


if __name__ == "__main__":
  try:
    code = main(sys.argv[1:])
  except SystemExit:
    raise
  except BaseException:  # pylint: disable=broad-except
    traceback.print_exc()
    code = 2
  sys.stdout.flush()
  sys.exit(code)
