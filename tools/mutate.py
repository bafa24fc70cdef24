"""Systematic mutants of the code under test, to look for gaps in the checks.

mutate.py OUT.jsonl [FILE...]: for every mutant of the files that keeps the tests
passing, runs the file's checks (reduced scale, stopping at the first alarm) and
records the outcome. Works on scratch copies of /repo and /verif only.
"""
import ast
import copy
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys

PY = "/opt/venv/bin/python"
WORK = os.environ.get("MUT_WORK", f"/tmp/x/mut/{os.getpid()}")
PKG = "causal_effect_bandits"
CHECKS = {
    "data.py": "D01 D03 D02 D04",
    "scm.py": "S01 S02 S03 S04 E02",
    "example_scm.py": "S04",
    "parameters.py": "N05 N01 N03 N04 N06 N02",
    "arms.py": "A03 A02 A01 A05 A04 B06",
    "bandits.py": "B03 B01 B02 B05 B04 B06",
    "paper_utils.py": "E01 E02",
    "nonlinear_utils.py": "E03 E02",
    "plotting_utils.py": "E04",
}
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE],
       ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add],
       ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.Mod: [ast.FloorDiv],
       ast.FloorDiv: [ast.Mod]}
NAMES = {"min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin",
         "mean": "median", "sum": "max", "any": "all", "all": "any", "floor": "ceil",
         "ceil": "floor", "zeros": "ones", "ones": "zeros", "var": "std", "std": "var",
         "sqrt": "square", "log": "log1p", "exp": "expm1", "maximum": "minimum",
         "minimum": "maximum", "cumsum": "cumprod", "append": "extend", "copy": "view",
         "deepcopy": "copy", "inv": "pinv", "abs": "float", "len": "max"}


def sites(tree):
  """(node path, mutated node, description)."""
  out = []

  def walk(node, path):
    for field, value in ast.iter_fields(node):
      if isinstance(value, list):
        for i, v in enumerate(value):
          if isinstance(v, ast.AST):
            visit(v, path + [(field, i)], node)
      elif isinstance(value, ast.AST):
        visit(value, path + [(field, None)], node)

  def add(path, new, what):
    out.append((path, new, what))

  def visit(n, path, parent):
    c = copy.deepcopy
    if isinstance(n, (ast.Import, ast.ImportFrom)):
      return
    if isinstance(n, ast.Raise) or (isinstance(n, ast.Call) and
                                    "logging" in ast.unparse(n.func)):
      return
    if path and path[-1][0] in ("annotation", "returns", "bases", "decorator_list"):
      return
    if isinstance(n, ast.Compare):
      for t in CMP.get(type(n.ops[0]), []):
        m = c(n)
        m.ops[0] = t()
        add(path, m, "compare")
    if isinstance(n, ast.BinOp) and not isinstance(n.left, ast.JoinedStr):
      for t in BIN.get(type(n.op), []):
        m = c(n)
        m.op = t()
        add(path, m, "operator")
      add(path, c(n.left), "left operand only")
      add(path, c(n.right), "right operand only")
    if isinstance(n, ast.AugAssign):
      m = c(n)
      m.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
      add(path, m, "augmented operator")
    if isinstance(n, ast.BoolOp):
      m = c(n)
      m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
      add(path, m, "and/or")
      for i in range(len(n.values)):
        m = c(n)
        del m.values[i]
        add(path, m.values[0] if len(m.values) == 1 else m, f"operand {i} dropped")
    if isinstance(n, ast.UnaryOp):
      add(path, c(n.operand), "unary dropped")
    if isinstance(n, (ast.If, ast.While, ast.IfExp)):
      m = c(n)
      m.test = ast.UnaryOp(ast.Not(), m.test)
      if not isinstance(n, ast.While):
        add(path, m, "condition negated")
      for v in (True, False):
        if isinstance(n, ast.While) and v:
          continue
        m = c(n)
        m.test = ast.Constant(v)
        add(path, m, f"condition {v}")
    if isinstance(n, ast.Constant) and not isinstance(parent, (ast.Expr, ast.JoinedStr,
                                                               ast.FormattedValue)):
      v = n.value
      if isinstance(v, bool):
        add(path, ast.Constant(not v), "constant")
      elif isinstance(v, int):
        add(path, ast.Constant(v + 1), "constant + 1")
        if v > 0:
          add(path, ast.Constant(v - 1), "constant - 1")
      elif isinstance(v, float):
        add(path, ast.Constant(v * 1.5 + .01), "constant bigger")
        if v:
          add(path, ast.Constant(v / 2), "constant halved")
      elif v is None and not isinstance(parent, (ast.Compare, ast.arguments)):
        add(path, ast.Constant(0), "None to 0")
    if isinstance(n, ast.Attribute) and n.attr in NAMES and isinstance(parent, ast.Call) \
        and path[-1][0] == "func":
      m = c(n)
      m.attr = NAMES[n.attr]
      add(path, m, "function")
    if isinstance(n, ast.Name) and n.id in NAMES and path[-1][0] == "func":
      add(path, ast.Name(NAMES[n.id], ast.Load()), "function")
    if isinstance(n, ast.Call):
      for i in range(len(n.keywords)):
        m = c(n)
        del m.keywords[i]
        add(path, m, f"keyword {n.keywords[i].arg} dropped")
      if len(n.args) > 1 and not any(isinstance(a, ast.Starred) for a in n.args):
        for i in range(len(n.args) - 1):
          m = c(n)
          m.args[i], m.args[i + 1] = m.args[i + 1], m.args[i]
          add(path, m, f"arguments {i} and {i+1} swapped")
        m = c(n)
        del m.args[-1]
        add(path, m, "last argument dropped")
      if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
        add(path, c(n.args[0]), "call replaced by its argument")
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
      for part in ("lower", "upper"):
        if getattr(n.slice, part) is not None:
          m = c(n)
          setattr(m.slice, part, None)
          add(path, m, f"slice {part} dropped")
    if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
      for i, g in enumerate(n.generators):
        if g.ifs:
          m = c(n)
          m.generators[i].ifs = []
          add(path, m, "filter dropped")
    if isinstance(n, ast.Return) and n.value is not None:
      pass
    if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (
        isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
      add(path, ast.Pass(), "statement deleted")
    if isinstance(n, ast.For):
      m = c(n)
      m.iter = ast.Call(ast.Name("reversed", ast.Load()),
                        [ast.Call(ast.Name("list", ast.Load()), [m.iter], [])], [])
      add(path, m, "loop reversed")
      m = c(n)
      m.iter = ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [m.iter], []),
                             ast.Slice(ast.Constant(1), None, None), ast.Load())
      add(path, m, "loop skips the first")
    if isinstance(n, ast.FunctionDef):
      # Swap neighbouring statements of the body.
      pass
    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and False:
      pass
    walk(n, path)

  walk(tree, [])
  return out


def apply(tree, path, new):
  tree = copy.deepcopy(tree)
  n = tree
  for field, i in path[:-1]:
    n = getattr(n, field) if i is None else getattr(n, field)[i]
  field, i = path[-1]
  if i is None:
    old = getattr(n, field)
    setattr(n, field, ast.copy_location(new, old))
  else:
    old = getattr(n, field)[i]
    getattr(n, field)[i] = ast.copy_location(new, old)
  ast.fix_missing_locations(tree)
  return tree, old


def where(tree, path):
  n = tree
  name = ""
  for field, i in path:
    n = getattr(n, field) if i is None else getattr(n, field)[i]
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
      name += "." + n.name
  return name[1:]


def short(n):
  return ast.unparse(n).replace("\n", " ; ")[:160]


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLCONFIGDIR=f"{WORK}/mpl")


def work(args):
  """One mutant: (file, source, description)."""
  f, src, info = args
  slot = mp.current_process()._identity[0]  # pylint: disable=protected-access
  repo, ver = f"{WORK}/repo{slot}", f"{WORK}/verif{slot}"
  if not os.path.isdir(repo):
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    os.makedirs(ver)
    for d in ("checks", "vlib", "run.py", "run.sh", "known_findings.txt", "properties.jsonl",
              "MANIFEST.json"):
      subprocess.run(["cp", "-a", f"/verif/{d}", ver], check=True)
  target = f"{repo}/{PKG}/{f}"
  with open(target, "w") as h:
    h.write(src)
  try:
    try:
      t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p",
                          "no:xdist", "--randomly-seed=0", "--randomly-dont-reorganize",
                          "--timeout=60", PKG], cwd=repo, env=ENV, capture_output=True,
                         text=True, timeout=120)
      ok = t.returncode == 0
    except subprocess.TimeoutExpired:
      ok = False
    if not ok:
      return dict(info, outcome="tests")
    env = dict(ENV, VERIF_REPO=repo, VERIF_JOBS="1", VERIF_SEED=os.environ.get("MUT_SEED", "5"),
               VERIF_SCALE=os.environ.get("MUT_SCALE", "0.2"))
    tried = []
    for c in CHECKS[f].split():
      try:
        r = subprocess.run([f"{ver}/run.sh", c, "quick"], env=env, capture_output=True,
                           text=True, timeout=400, start_new_session=True)
        code = r.returncode
      except subprocess.TimeoutExpired:
        code = "timeout"
      tried.append((c, code))
      if code == 1:
        return dict(info, outcome="caught", by=c, msg=r.stdout[:200])
    return dict(info, outcome="survived", tried=tried)
  finally:
    shutil.rmtree(f"{ver}/replays", ignore_errors=True)
    subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)


def main():
  out = sys.argv[1]
  files = sys.argv[2:] or list(CHECKS)
  done = set()
  if os.path.exists(out):
    for line in open(out):
      d = json.loads(line)
      done.add((d["file"], d["n"]))
  jobs = []
  for f in files:
    src = open(f"/repo/{PKG}/{f}").read()
    tree = ast.parse(src)
    base = ast.unparse(tree)
    seen = {base}
    for n, (path, new, what) in enumerate(sites(tree)):
      t, old = apply(tree, path, new)
      s = ast.unparse(t)
      if s in seen or (f, n) in done:
        continue
      seen.add(s)
      jobs.append((f, s, dict(file=f, n=n, line=getattr(old, "lineno", 0),
                              where=where(tree, path), what=what, old=short(old),
                              new=short(new))))
  random.Random(0).shuffle(jobs)
  limit = int(os.environ.get("MUT_N", "0"))
  if limit:
    jobs = jobs[:limit]
  print(len(jobs), "mutants", flush=True)
  os.makedirs(WORK, exist_ok=True)
  with mp.Pool(int(os.environ.get("MUT_JOBS", "8"))) as p, open(out, "a") as h:
    for r in p.imap_unordered(work, jobs):
      h.write(json.dumps(r) + "\n")
      h.flush()


if __name__ == "__main__":
  main()
