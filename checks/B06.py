"""Bandit settings are validated and runs can be repeated."""
import numpy as np
from hypothesis import strategies as st

from vlib import armkit, banditkit, nuis
from vlib.core import Sub, raises, require

ID = "B06"
INF = float("inf")
RULE = ("settings: constructor arguments on and around the valid ranges; non-trivial = some "
        "argument at a limit of its range. defaults: a run with the default settings left out "
        "equals one that states them; non-trivial = at least two rounds. history: 2-5 runs over the same arms by bandits "
        "of generated kinds, some after a run during which an arm or the generator failed, each preceded by a reset of one of the bandits, each compared "
        "with a run over new arms under the same random state; stub arms, or real "
        "sample-splitting arms with stub or bundled estimators; non-trivial = two runs of "
        "at least two rounds")

ERR = [.05, .5, 1e-9, 1 - 1e-9, 0, 1, 0.0, 1.0, -.1, 1.5, "inf", "-inf", "nan"]
TOL = [0, 0.0, .1, 3, 1e-12, -1e-12, -.5, "-inf"]
CONF = ["omit", None, .05, .5, 1e-9, 0, 1, -.05, 1.5, "inf", "nan"]
LIM = ["omit", None, "inf", 0, 1, 50, 10**9, 2.5]


def fn_settings(case, rec):
  cls = banditkit.ALGOS[case["algo"]]
  kw = dict(error_prob=float(case["err"]), error_tol=float(case["tol"]))
  if case["conf"] != "omit":
    kw["confidence"] = None if case["conf"] is None else float(case["conf"])
  if case["lim"] != "omit":
    kw["sample_limit"] = None if case["lim"] is None else float(case["lim"])
  for n in case["drop"]:
    kw.pop(n)
  log = banditkit.Log(10**4)
  made = [banditkit.StubArm(f"a{i}", [[i + 1, i + 1, i + 1]], 1, log) for i in range(2)]
  gen = banditkit.Generator()
  build = lambda: cls(made, gen, units_per_round=3, **kw)
  default = dict(uniform=(.05, INF)).get(case["algo"], (None, INF))
  conf = kw.get("confidence", default[0])
  lim = kw.get("sample_limit", default[1])
  lim = INF if lim is None else lim
  err, tol = kw.get("error_prob", .05), kw.get("error_tol", 0)
  valid = (0 < err < 1 and tol >= 0 and (conf is None or 0 < conf < 1) and
           not (conf is None and lim == INF))
  what = f"{case['algo']} with {kw}"
  edge = not valid or min(err, 1 - err) < 1e-6 or (conf is not None and conf < 1e-6)
  rec.nontrivial(edge)
  if not valid:
    raises(ValueError, build, what)
    require(not log.events and not gen.calls, f"{what}: the constructor sampled")
    rec.label("rejected")
    return
  bandit = build()
  require(not log.events and not gen.calls, f"{what}: the constructor sampled")
  res = bandit.run()
  require([a.name for a in res.best_arm] == ["a0"], f"{what}: returned arms",
          got=[a.name for a in res.best_arm])
  rec.label("accepted")


def st_settings():
  return st.fixed_dictionaries(dict(
      algo=st.sampled_from(sorted(banditkit.ALGOS)), err=st.sampled_from(ERR[:3] * 3 + ERR),
      tol=st.sampled_from(TOL[:3] * 3 + TOL), conf=st.sampled_from(CONF[:4] * 2 + CONF),
      lim=st.sampled_from(LIM), drop=st.sampled_from(
          [[]] * 4 + [["error_prob"], ["error_tol"], ["error_prob", "error_tol"]]),
      seed=st.just(0)))


def fn_defaults(case, rec):
  outcomes = []
  for omit in (True, False):
    np.random.seed(case["seed"] % 2**31)
    r = banditkit.Run(dict(case, omit=omit))
    outcomes.append(banditkit.outcome(r))
  got, want = outcomes
  banditkit.same_outcome(got, want, f"{case['algo']} with the defaults omitted")
  rec.nontrivial(len(got["cum"]) > 1)


def st_defaults():
  return banditkit.st_run().map(lambda c: dict(
      c, error_prob=.05, tol=0, limit=None if c["limit"] in ("inf", 10**9) else c["limit"]))


# -------------------------------------------------------------------- histories
class World:
  """Arms shared by one bandit of each kind."""

  def __init__(self, case):
    base = case["run"]
    k = len(base["costs"])
    if case["kind"] == "stub":
      steps = 3000
      self.log = banditkit.Log(steps * len(case["steps"]) * 2)
      self.arms = [banditkit.StubArm(f"arm{i}", t, c, self.log)
                   for i, (t, c) in enumerate(zip(base["traces"], base["costs"]))]
      self.gen = banditkit.Generator()
      self.fixed = banditkit.table(0, 2 * base["limit"] + 60 * k) if base["fixed"] else None
    else:
      n = base["limit"] + 3 * k * base["units"] + 10
      self.log = banditkit.Log(n * len(case["steps"]) * 4)
      if case["kind"] == "recorder":
        pool = armkit.Pool(n, case["seed"] % 1000)
        specs = base["arms"]
      else:
        e = case["e"]
        full, _ = armkit.real_pool(n, e["d"], e["kind"].startswith("Front"),
                                   case["seed"] % 1000)
        pool = Rows(full)
        specs = [dict(s, tr="identity", eta=lambda: nuis.make_estimator(e),
                      alg="CLT" if e["kind"].startswith("Linear") else s["alg"])
                 for s in base["arms"]]
      self.arms = banditkit.make_real(dict(base, arms=specs), pool, self.log)
      self.gen = banditkit.PoolGenerator(pool)
      self.fixed = pool.take(range(n)) if base["fixed"] else None
    self.runs = {}
    for algo in banditkit.ALGOS:
      r = banditkit.Run(dict(base, algo=algo, fixed=False, traces=[[]] * k), self.log,
                        self.arms, self.gen, do=False)
      r.fixed = self.fixed
      self.runs[algo] = r

  def fail(self, algo, seed, where, at):
    """A run during which an arm or the generator fails; returns whether it failed."""
    source = self.log if where == "arm" else self.gen
    source.fail_in = at
    np.random.seed(seed)
    self.gen.n = 0
    try:
      self.runs[algo].run()
    except banditkit.Fault:
      return True
    finally:
      source.fail_in = None
    return False

  def run(self, algo, seed):
    np.random.seed(seed)
    self.gen.n = 0
    r = self.runs[algo]
    r.run()
    return banditkit.outcome(r)


class Rows:

  def __init__(self, full):
    self.full = full

  def take(self, ids):
    return self.full[np.array(ids, dtype=int)]


def fn_history(case, rec):
  shared = World(case)
  long = 0
  for j, (algo, via, seed, fault) in enumerate(case["steps"]):
    if fault:
      if j:
        shared.runs[via].bandit.reset()
      rec.label("failed run" if shared.fail(algo, seed // 2, *fault) else "fault not reached")
    if j or case["reset_first"] or fault:
      for _ in range(case["resets"]):
        shared.runs[via].bandit.reset()
      for a in shared.arms:
        require(a.num_pulled == 0 and a.get_num_units() == 0,
                f"resetting the {via} bandit did not reset {a.name}", pulled=a.num_pulled,
                units=a.get_num_units())
    got = shared.run(algo, seed)
    new = World(case)
    want = new.run(algo, seed)
    banditkit.same_outcome(got, want, f"run {j} ({algo}) after a reset through {via}")
    long += len(got["cum"]) > 1
    rec.label(algo)
  rec.label(case["kind"])
  if len({s[0] for s in case["steps"]}) > 1:
    rec.label("different bandits")
  rec.nontrivial(long > 1)


@st.composite
def st_history(draw):
  kind = draw(st.sampled_from(["stub", "stub", "stub", "recorder", "recorder", "real"]))
  base = draw(banditkit.st_run() if kind == "stub" else banditkit.st_real())
  base["limit"] = draw(st.integers(0, 8 * len(base["costs"]))) * base["units"]
  step = st.tuples(st.sampled_from(sorted(banditkit.ALGOS)),
                   st.sampled_from(sorted(banditkit.ALGOS)), st.integers(0, 10**6),
                   st.one_of(st.none(), st.none(), st.tuples(
                       st.sampled_from(["arm", "generator"]), st.integers(0, 12)).map(list)))
  steps = draw(st.lists(step.map(list), min_size=2, max_size=5 if kind == "stub" else 3))
  return dict(kind=kind, run=base, steps=steps, e=draw(nuis.st_estimator()),
              reset_first=draw(st.booleans()), resets=draw(st.sampled_from([1, 1, 2])),
              seed=draw(st.integers(0, 2**31)))


SUBS = [Sub("settings", st_settings, fn_settings, 700),
        Sub("defaults", st_defaults, fn_defaults, 600),
        Sub("history", st_history, fn_history, 1000)]
