"""Runner for the generated-input checks.

A check module (checks/<ID>.py) defines ID, TITLE, RULE and SUBS, a list of Sub.
Each Sub has a Hypothesis strategy producing ONE JSON-serialisable case and a
plain function fn(case, rec): it raises Violation (through require) when the
property does not hold for that case. The function is a pure function of the case
and the code under test: numpy's global generator is seeded from case["seed"].
"""
import hashlib
import json
import logging
import math
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

import numpy as np

from vlib import repo

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
  """The property does not hold for the case."""


class Hang(Violation):
  """A case does not come to an end."""


class _Stop(BaseException):
  """Ends the search at once."""


class HarnessError(Exception):
  """The harness itself failed."""


class Undecided(Exception):
  """The case does not decide the property; it is counted, but not as non-trivial."""


# ---------------------------------------------------------------- assertions
def require(cond, msg="", **info):
  if not bool(cond):
    raise Violation(msg + (" " + _short(info) if info else ""))


def _short(v, n=1200):
  try:
    s = repr(v)
  except Exception as e:  # pylint: disable=broad-except
    s = f"<unprintable {type(v)}: {e}>"
  return s if len(s) <= n else s[:n] + "..."


def arr(v, what, ndim=None, shape=None, dtype=float):
  """v as an array, or a Violation when it is not one of the right shape."""
  try:
    a = np.asarray(v, dtype=dtype)
  except Exception as e:  # pylint: disable=broad-except
    raise Violation(f"{what}: not a numeric array: {_short(v)} ({e})") from None
  if ndim is not None and a.ndim != ndim:
    raise Violation(f"{what}: has shape {a.shape}, expected {ndim} dimension(s)")
  if shape is not None and tuple(a.shape) != tuple(shape):
    raise Violation(f"{what}: has shape {a.shape}, expected {tuple(shape)}")
  return a


def close(got, want, what, rtol=1e-7, atol=1e-9, **info):
  """got equals want up to tolerance; nan equals nan and inf equals inf."""
  w = np.asarray(want, dtype=float)
  g = arr(got, what, shape=w.shape)
  ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
  if not np.all(ok):
    raise Violation(f"{what}: got {_short(g, 400)}, expected {_short(w, 400)} " +
                    (_short(info) if info else ""))


def near(got, want, rtol=0.0, atol=0.0):
  """Whether two numbers agree; an infinite one only agrees with itself."""
  return bool(np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True))


def same(got, want, what, **info):
  """Exactly equal arrays (nan equals nan)."""
  w = np.asarray(want)
  try:
    g = np.asarray(got)
    ok = g.shape == w.shape and bool(
        np.all((g == w) | ((g != g) & (w != w)))) if w.size or g.size else (
            g.shape == w.shape)
  except Exception as e:  # pylint: disable=broad-except
    raise Violation(f"{what}: cannot compare {_short(got)}: {e}") from None
  if not ok:
    raise Violation(f"{what}: got {_short(g, 400)}, expected {_short(w, 400)} " +
                    (_short(info) if info else ""))


def scalar(v, what):
  try:
    a = np.asarray(v, dtype=float)
  except Exception:  # pylint: disable=broad-except
    raise Violation(f"{what}: not a number: {_short(v)}") from None
  if a.ndim != 0:
    raise Violation(f"{what}: not a scalar: shape {a.shape}")
  return float(a)


def interval(v, what):
  """v as a pair of floats."""
  try:
    lo, hi = v
  except Exception:  # pylint: disable=broad-except
    raise Violation(f"{what}: not an interval: {_short(v)}") from None
  return scalar(lo, what + " lower bound"), scalar(hi, what + " upper bound")


def raises(exc, fn, what):
  """fn() must raise exc."""
  try:
    r = fn()
  except exc:
    return
  except Violation:
    raise
  except Exception as e:  # pylint: disable=broad-except
    raise Violation(
        f"{what}: raised {type(e).__name__}({e}) instead of {exc.__name__}"
    ) from None
  raise Violation(f"{what}: was accepted (returned {_short(r, 200)})")


def zcheck(count_or_sum, mean, var, what, z=7.0, **info):
  """A sum with the given mean and variance must be within z standard deviations."""
  dev = abs(count_or_sum - mean)
  if var <= 1e-300:
    require(dev <= 1e-6 * (1 + abs(mean)), f"{what}: {count_or_sum} but exactly "
            f"{mean} expected", **info)
  else:
    require(dev <= z * math.sqrt(var), f"{what}: {count_or_sum}, expected {mean} "
            f"+- {math.sqrt(var):.4g} (z={dev / math.sqrt(var):.1f})", **info)


# ---------------------------------------------------------------- generation
def tail(base, *large, every=16):
  """Mostly base, sometimes one of the large values: sizes beyond the usual ones."""
  from hypothesis import strategies as st
  return st.integers(0, every - 1).flatmap(
      lambda i: st.sampled_from(large) if i == every - 1 else base)


# ------------------------------------------------------------------- records
class Rec:
  """Collects what the cases of one unit covered."""

  def __init__(self):
    self.labels = {}
    self.cur_labels = set()
    self.cur_nontrivial = False

  def begin(self):
    self.cur_labels = set()
    self.cur_nontrivial = False

  def label(self, *names):
    self.cur_labels.update(str(n) for n in names)

  def nontrivial(self, cond=True, label=None):
    if cond:
      self.cur_nontrivial = True
      if label:
        self.label(label)


class Sub:

  def __init__(self, name, strategy, fn, quick, thorough=None, shards=None,
               seconds=None):
    self.name = name
    self.strategy = strategy  # a zero-argument function
    self.fn = fn
    self.quick = quick
    self.thorough = thorough or quick * 15
    self.shards = shards
    self.seconds = seconds or CASE_SECONDS


def _quiet():
  warnings.filterwarnings("ignore")
  np.seterr(all="ignore")
  logging.disable(logging.CRITICAL)


def _from_repo(exc):
  """The exception passed through code of the repository."""
  seen = set()
  while exc is not None and id(exc) not in seen:
    seen.add(id(exc))
    for f in traceback.extract_tb(exc.__traceback__):
      if os.path.abspath(f.filename).startswith(repo.REPO + os.sep):
        return True
    exc = exc.__context__
  return False


def rng(case, salt=0):
  """A generator for the case's inputs, distinct from numpy's global stream."""
  return np.random.RandomState([int(case.get("seed", 0)) % 2**32, 7919 + salt])


def seed_case(case):
  s = case.get("seed", 0) if isinstance(case, dict) else 0
  np.random.seed(int(s) % 2**32)
  random.seed(int(s))


def run_case(sub, case, rec):
  """Runs one case; raises Violation or HarnessError."""
  from hypothesis.errors import UnsatisfiedAssumption
  rec.begin()
  seed_case(case)
  try:
    with np.errstate(all="ignore"), _cpu_limit(sub.seconds):
      sub.fn(case, rec)
  except (Violation, HarnessError, UnsatisfiedAssumption):
    raise
  except Undecided as e:
    rec.begin()
    rec.label(f"undecided: {e}")
  except MemoryError as e:
    if _from_repo(e):
      raise Violation(f"out of memory ({MEMORY >> 20} MB)") from None
    raise HarnessError("".join(traceback.format_exception(e))) from e
  except OSError as e:
    raise HarnessError("".join(traceback.format_exception(e))) from e
  except Exception as e:  # pylint: disable=broad-except
    txt = "".join(traceback.format_exception(e))
    if _from_repo(e):
      raise Violation(f"unexpected {type(e).__name__}: {e}\n" +
                      txt[-1500:]) from None
    # The checks process whatever the code under test returns on the unchanged tree.
    raise Violation(f"a result could not be processed: {type(e).__name__}: {e}\n" +
                    txt[-1500:]) from None


MEMORY = 3500 << 20  # address space of a worker; about 400 MB are used
CASE_SECONDS = 20  # of processor time; most cases take well below one second


class _cpu_limit:
  """Turns a case that does not come to an end into a violation."""

  def __init__(self, seconds):
    self.seconds = seconds

  def __enter__(self):
    def stop(signum, frame):
      raise Hang(f"not finished after {self.seconds} s of processor time")
    self.old = signal.signal(signal.SIGVTALRM, stop)
    signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)

  def __exit__(self, *exc):
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    signal.signal(signal.SIGVTALRM, self.old)


def isolated(fn, seconds=CASE_SECONDS):
  """The (picklable) result of fn() in a process of its own, which leaves no trace here."""
  r, w = os.pipe()
  pid = os.fork()
  if not pid:
    try:
      os.close(r)
      try:
        with _cpu_limit(seconds):
          out = ("ok", fn())
      except Violation as e:
        out = ("violation", str(e))
      except BaseException as e:  # pylint: disable=broad-except
        txt = f"unexpected {type(e).__name__}: {e}\n" + "".join(traceback.format_exception(e))
        out = ("harness" if isinstance(e, (HarnessError, OSError)) or
               isinstance(e, MemoryError) and not _from_repo(e) else "violation", txt[-2500:])
      with os.fdopen(w, "wb") as f:
        pickle.dump(out, f)
    finally:
      os._exit(0)
  os.close(w)
  with os.fdopen(r, "rb") as f:
    raw = f.read()
  _, status = os.waitpid(pid, 0)
  if not raw:
    raise HarnessError(f"an isolated run ended with status {status}")
  kind, out = pickle.loads(raw)
  if kind == "violation":
    raise Violation(out)
  if kind == "harness":
    raise HarnessError(out)
  return out


def shard_seed(prop, sub, shard, base):
  h = hashlib.sha256(f"{prop}/{sub}/{shard}/{base}".encode()).digest()
  return int.from_bytes(h[:6], "big")


def run_unit(sub, prop, shard, n, base_seed, deadline):
  """Runs n generated cases of one sub-check in this process."""
  import hypothesis
  from hypothesis import HealthCheck, Phase, given, settings
  from hypothesis.internal.conjecture import engine
  engine.MAX_SHRINKING_SECONDS = 30
  rec = Rec()
  st = dict(evals=0, distinct=set(), labels={}, samples=[], violation=None,
            error=None, skipped=0, flaky=False, last=None)
  t_end = time.monotonic() + deadline
  fail = {}
  hseed = shard_seed(prop, sub.name, shard, base_seed)

  def body(case):
    if not fail and time.monotonic() > t_end:
      st["skipped"] += 1
      return
    js = json.dumps(case, sort_keys=True)
    st["last"] = js
    try:
      run_case(sub, case, rec)
    except Violation as e:
      # Keep the smallest failing case seen.
      if "case" not in fail or (len(js), js) <= (len(fail["case"]), fail["case"]):
        fail["case"] = js
        fail["msg"] = str(e)
      fail["last"] = js
      fail["last_msg"] = str(e)
      if isinstance(e, Hang):  # too slow to shrink
        raise _Stop() from None
      raise
    if fail:
      return  # shrinking
    st["evals"] += 1
    for l in rec.cur_labels:
      st["labels"][l] = st["labels"].get(l, 0) + 1
    if rec.cur_nontrivial:
      h = zlib.crc32(js.encode()) | (zlib.adler32(js.encode()) << 32)
      if h not in st["distinct"]:
        st["distinct"].add(h)
        if len(st["samples"]) < 2 or (st["evals"] > n // 2 and
                                      len(st["samples"]) < 3):
          st["samples"].append(js if len(js) < 900 else js[:900] + "...")

  test = given(sub.strategy())(body)
  test = settings(
      max_examples=n, database=None, deadline=None, print_blob=False,
      report_multiple_bugs=False, derandomize=False,
      phases=[Phase.generate, Phase.shrink],
      suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                             HealthCheck.large_base_example],
      verbosity=hypothesis.Verbosity.quiet)(test)
  test = hypothesis.seed(hseed)(test)
  t_start = time.process_time()
  try:
    test()
  except Violation as e:
    # Hypothesis replays the minimal case last.
    st["violation"] = (fail.get("last") or fail.get("case"), str(e))
  except _Stop:
    st["violation"] = (fail["case"], fail["msg"])
  except hypothesis.errors.Flaky as e:
    if fail:
      st["violation"] = (fail["case"], fail["msg"] +
                         "\n(the failure depends on earlier cases)")
      st["flaky"] = True
    else:
      st["error"] = f"flaky: {e}"
  except HarnessError as e:
    st["error"] = str(e) + "\ncase: " + str(st["last"])[:2000]
  except BaseException as e:  # pylint: disable=broad-except
    st["error"] = "".join(traceback.format_exception(e)) + "\ncase: " + str(
        st["last"])[:2000]
  st["hseed"] = hseed
  st["cpu"] = time.process_time() - t_start
  return st


# -------------------------------------------------------------------- driver
def _worker(path, sub, prop, shard, n, base_seed, deadline, tmp):
  resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
  try:
    os.chdir(tmp)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
      os.dup2(devnull, 2)
    sys.stdout = open(os.devnull, "w")
    _quiet()
    out = run_unit(sub, prop, shard, n, base_seed, deadline)
  except BaseException as e:  # pylint: disable=broad-except
    out = dict(error="".join(traceback.format_exception(e)))
  with open(path + ".tmp", "wb") as f:
    pickle.dump(out, f)
  os.rename(path + ".tmp", path)
  os._exit(0)


def run_check(mod, tier, seed):
  """Runs every sub-check of a module; returns the exit code."""
  t0 = time.time()
  prop = mod.ID
  nproc = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
  only = os.environ.get("VERIF_SUB")
  scale = float(os.environ.get("VERIF_SCALE", "1"))
  # The whole run stays well below the limit of 900 s.
  budget = 600 if tier == "quick" else float(
      os.environ.get("VERIF_BUDGET", "740"))
  units = []
  for sub in mod.SUBS:
    if only and sub.name not in only.split(","):
      continue
    n = sub.quick if tier == "quick" else sub.thorough
    n = max(1, int(n * scale))
    k = sub.shards or (nproc if n >= 8 * nproc else max(1, n // 8))
    if tier == "thorough":
      k = max(k, min(nproc, n))
    k = min(k, n)
    for s in range(k):
      m = n // k + (1 if s < n % k else 0)
      units.append((sub, s, m))
  # Longest first is unknown; interleave the shards of different subs.
  units.sort(key=lambda u: u[1])
  tmp = tempfile.mkdtemp(prefix="verif-")
  results = []
  running = {}
  queue = list(enumerate(units))
  hard_end = t0 + budget + 110
  timed_out = 0
  try:
    while queue or running:
      while queue and len(running) < nproc:
        i, (sub, s, m) = queue.pop(0)
        path = os.path.join(tmp, f"r{i}")
        wd = os.path.join(tmp, f"w{i}")
        os.mkdir(wd)
        left = max(1.0, t0 + budget - time.time())
        pid = os.fork()
        if pid == 0:
          _worker(path, sub, prop, s, m, seed, left, wd)
        running[pid] = (i, sub, s, m, path)
      pid, _ = _wait(running, hard_end)
      if pid is None:  # out of time
        for p in running:
          os.kill(p, signal.SIGKILL)
          os.waitpid(p, 0)
          timed_out += 1
        running = {}
        break
      if pid not in running:
        continue
      i, sub, s, m, path = running.pop(pid)
      if os.path.exists(path):
        with open(path, "rb") as f:
          r = pickle.load(f)
      else:
        r = dict(error=f"worker of {sub.name}/{s} died")
      r.update(sub=sub, shard=s, n=m)
      results.append(r)
      if r.get("violation"):  # one violation decides the run
        break
  finally:
    for p in running:
      try:
        os.kill(p, signal.SIGKILL)
        os.waitpid(p, 0)
      except (ProcessLookupError, ChildProcessError):
        pass
    shutil.rmtree(tmp, ignore_errors=True)

  return finish(mod, tier, seed, results, timed_out, len(units), t0)


def _wait(running, hard_end):
  while time.time() < hard_end:
    for p in list(running):
      q, status = os.waitpid(p, os.WNOHANG)
      if q:
        return q, status
    time.sleep(.01)
  return None, None


def finish(mod, tier, seed, results, timed_out, n_units, t0):
  prop = mod.ID
  evals = sum(r.get("evals", 0) for r in results)
  by_sub = {}
  for r in results:
    d = by_sub.setdefault(r["sub"].name, dict(
        evaluations=0, distinct=set(), labels={}, samples=[], skipped=0))
    d["evaluations"] += r.get("evals", 0)
    d["distinct"] |= r.get("distinct", set())
    d["skipped"] += r.get("skipped", 0)
    d["samples"] += r.get("samples", [])
    for k, v in r.get("labels", {}).items():
      d["labels"][k] = d["labels"].get(k, 0) + v
  distinct = sum(len(d["distinct"]) for d in by_sub.values())
  samples = []
  for name, d in by_sub.items():
    for s in d["samples"][:2]:
      samples.append({"sub": name, "case": s})
  violations = [r for r in results if r.get("violation")]
  errors = [r for r in results if r.get("error")]
  ev = dict(
      property=prop, tier=tier, seed=seed, level="exploration",
      coverage=dict(
          evaluations=evals, distinct_nontrivial=distinct, rule=mod.RULE,
          samples=samples[:12],
          by_sub={k: dict(evaluations=d["evaluations"],
                          distinct_nontrivial=len(d["distinct"]),
                          skipped_after_time_budget=d["skipped"],
                          labels=dict(sorted(d["labels"].items())))
                  for k, d in by_sub.items()}),
      assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
      wall_s=round(time.time() - t0, 2), violations=len(violations))
  os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
  with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
    json.dump(ev, f, indent=1, default=str)
    f.write("\n")

  if violations:
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for r in violations[:1]:
      js, msg = r["violation"]
      h = hashlib.sha256((r["sub"].name + str(js)).encode()).hexdigest()[:10]
      path = os.path.join(HERE, "replays", f"{prop}-{r['sub'].name}-{h}.json")
      with open(path, "w") as f:
        json.dump(dict(property=prop, sub=r["sub"].name,
                       case=json.loads(js) if js else None, message=msg,
                       history_dependent=bool(r.get("flaky")),
                       shard=r["shard"], examples=r["n"], seed=seed), f, indent=1)
      print(f"{prop}/{r['sub'].name}: {msg[:1500]}")
      print(f"case: {str(js)[:1500]}")
      print(f"VIOLATION property={prop} replay={path}")
    return 1
  if errors:
    for r in errors[:2]:
      print(f"HARNESS ERROR in {prop}/{r['sub'].name}: {r['error'][-4000:]}",
            file=sys.stderr)
    return 2
  if timed_out or any(d["evaluations"] == 0 for d in by_sub.values()):
    print(f"INCONCLUSIVE {prop}: {timed_out} units out of time", file=sys.stderr)
    return 3
  sk = sum(d["skipped"] for d in by_sub.values())
  if os.environ.get("VERIF_DEBUG"):
    cpu = {}
    for r in results:
      cpu[r["sub"].name] = cpu.get(r["sub"].name, 0) + r.get("cpu", 0)
    for k, v in cpu.items():
      print(f"  {k}: cpu {v:.1f}s evals {by_sub[k]['evaluations']} "
            f"nontrivial {len(by_sub[k]['distinct'])} {by_sub[k]['labels']}")
  print(f"OK property={prop} tier={tier} evaluations={evals} "
        f"distinct_nontrivial={distinct} skipped={sk} "
        f"wall={time.time() - t0:.1f}s")
  return 0


def replay(mod, d):
  _quiet()
  sub = [s for s in mod.SUBS if s.name == d["sub"]][0]
  if d.get("history_dependent"):
    st = run_unit(sub, mod.ID, d["shard"], d["examples"], d["seed"], 600)
    bad = st["violation"]
    msg = bad[1] if bad else st["error"]
  else:
    msg = None
    try:
      run_case(sub, d["case"], Rec())
    except Violation as e:
      msg = str(e)
  if msg:
    print(f"REPRODUCED {mod.ID}/{sub.name}: {msg}")
    return 1
  print(f"NOT REPRODUCED {mod.ID}/{sub.name}")
  return 0
