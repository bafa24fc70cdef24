"""With valid intervals the returned arm is optimal."""
import numpy as np
from hypothesis import strategies as st

from vlib import armkit, banditkit, repo
from vlib.core import Sub, require

data, parameters, arms, bandits = repo.load("data", "parameters", "arms", "bandits")

ID = "B04"
INF = float("inf")
RULE = ("valid: runs over recording arms whose intervals contain a generated true variance "
        "throughout (estimates anywhere in the interval, infinite and zero widths, equal "
        "truths, costs) and shrink to a point; non-trivial = at least two rounds, or the "
        "arm first looking best is not the optimal one; labels say how the run ended. real: sample-splitting arms whose scores are draws of "
        "known distributions that differ in their spread; the same statement with the "
        "intervals the arms publish after every update, and at the limit the arm with the "
        "smallest published estimate is returned; non-trivial = all published intervals "
        "contain the truth")


@st.composite
def st_valid(draw):
  algo = draw(st.sampled_from(["uniform", "lucb", "se"]))
  k = draw(st.integers(2, 5))
  u = draw(st.sampled_from([1, 5]))
  costs = [draw(st.sampled_from(banditkit.COSTS)) for _ in range(k)]
  if draw(st.booleans()):
    costs = [1] * k
  tol = draw(st.sampled_from([0, 0, 0, .25, .5, 1, 1.25, 2, 3]))
  span = 8 if tol > 1 else 4
  close = draw(st.booleans())
  m = [draw(banditkit.quarter(1, 2) if close else banditkit.quarter(0, 6 if tol < 2 else 9))
       for _ in range(k)]
  traces = []
  for c, t in zip(costs, m):
    th = t / c if c != 3 else t  # exact in binary
    tr = []
    wide = draw(st.booleans())
    for _ in range(draw(st.integers(0, 5))):
      lo = max(0, th - draw(banditkit.quarter(0, span if wide else 1)))
      hi = th + draw(banditkit.quarter(0, span if wide else 1))
      kind = draw(st.sampled_from(["in"] * 5 + ["low", "high", "inf", "vacuous"]))
      if kind == "vacuous":
        tr.append([0, "inf", "inf"])
        continue
      if kind == "inf":
        tr.append([0, lo, "inf"])
        continue
      est = {"low": lo, "high": hi}.get(kind)
      if est is None:
        est = lo + (hi - lo) * draw(st.sampled_from([0, .25, .5, .75, 1]))
      tr.append([lo, est, hi])
    tr.append([th, th, th])
    traces.append(tr)
  truths = [c * tr[-1][1] for c, tr in zip(costs, traces)]
  low = min(truths)
  # A run without limit ends once the intervals separate the arms.
  unlimited = truths.count(low) == 1 or (tol > 0 and algo != "se")
  limit = None if unlimited and draw(st.booleans()) else draw(st.integers(0, 10 * k)) * u
  return dict(algo=algo, costs=costs, traces=traces, units=u, limit=limit, tol=tol,
              fixed=draw(st.booleans()), error_prob=.1, confidence=.1,
              seed=draw(st.integers(0, 2**31)))


def fn_valid(case, rec):
  run = banditkit.Run(case)  # fails if a run does not end
  k = len(run.arms)
  truth = [c * tr[-1][1] for c, tr in zip(case["costs"], case["traces"])]
  low = min(truth)
  best = run.best()
  require(best, "the result is empty")
  algo = case["algo"]
  total = len(run.events) * case["units"]
  limit = INF if case["limit"] is None else case["limit"]
  pulls = [0] * k
  for i in run.pulled:
    pulls[i] += 1
  info = dict(returned=best, truths=truth, pulls=pulls, tol=case["tol"],
              values=[run.values(i, pulls[i]) for i in range(k)])
  if algo == "se":
    for r, chunk, n, before, after, cand in run.rounds():
      require(any(truth[i] == low for i in chunk), f"all optimal arms were dropped before "
              f"round {r}", sampled=chunk, **info)
  if total <= limit:
    require(len(best) == 1, f"{algo}: several arms after ending with confidence", **info)
    slack = 0 if algo == "se" else case["tol"]
    require(truth[best[0]] <= low + slack, f"{algo}: the returned arm is not optimal", **info)
    rec.label(f"{algo} ended by confidence")
  else:
    rec.label(f"{algo} ended past the limit")
  if truth.count(low) > 1:
    rec.label("tied truths")
  first = [run.values(i, 1)[1] for i in range(k)]
  misled = truth[first.index(min(first))] > low
  if misled:
    rec.label("misleading first estimates")
  rec.nontrivial(misled or len(list(run.rounds())) > 1)


class Spread(parameters.NuisanceParameter):
  """The score of a unit is a fixed draw with a given spread."""

  def __init__(self, sd):
    self.sd = sd

  def reset(self):
    pass

  def fit(self, d):
    pass

  def calculate_score(self, d):
    return self.sd * np.asarray(d.rsp, float)

  def has_enough_samples(self):
    return True

  def calculate_cs_width(self, delta, sub_g, rho):
    return 0.0


class Normal(data.DataGenerator):

  def __init__(self, rs):
    super().__init__("normal")
    self.rs = rs

  def generate(self, n):
    y = self.rs.normal(size=n)
    return data.ExpData(np.c_[y, y], (y > 0) * 1, y)


def fn_real(case, rec):
  log = banditkit.Log(10**6)
  arm_list = []
  for i, (sd, c) in enumerate(zip(case["sd"], case["costs"])):
    a = banditkit.LoggedArm(
        f"a{i}", Spread(sd), data.get_identity_fn(), ci_algorithm=armkit.ALGS[case["alg"]],
        cost=c, sub_gscale=1, tau_bound=1, burn_in=case["burn_in"],
        stable_splits=case["stable"])
    a.setup(log)
    arm_list.append(a)
  gen = Normal(np.random.RandomState([case["seed"] % 2**31, 4]))
  limit = case["units"] * case["updates"]
  bandit = banditkit.ALGOS[case["algo"]](
      arm_list, gen, error_prob=case["delta"], error_tol=case["tol"], confidence=case["delta"],
      sample_limit=limit, units_per_round=case["units"])
  result = bandit.run(gen.generate(limit * 2 + 100)) if case["fixed"] else bandit.run()
  best = [arm_list.index(a) for a in result.best_arm]
  require(best, "the result is empty")
  truth = [c * sd**2 for sd, c in zip(case["sd"], case["costs"])]
  low = min(truth)
  valid = all(lo <= sd**2 <= hi for a, sd in zip(arm_list, case["sd"])
              for lo, _, hi in a.hist)
  total = case["units"] * len(log.events)
  rec.label(f"{case['algo']} {'confident' if total <= limit else 'at the limit'}",
            "valid" if valid else "an interval misses the truth")
  rec.nontrivial(valid)
  info = dict(returned=best, truths=truth, last=[a.hist[-1] for a in arm_list])
  last = [c * a.hist[-1][1] for c, a in zip(case["costs"], arm_list)]
  if total <= limit:
    require(len(best) == 1, f"{case['algo']}: several arms after ending with confidence",
            **info)
    slack = 0 if case["algo"] == "se" else case["tol"]
    require(not valid or truth[best[0]] <= low + slack + 1e-9,
            f"{case['algo']}: the returned arm is not optimal though all intervals were valid",
            **info)
  elif case["algo"] != "se":
    require(all(last[i] == min(last) for i in best),
            f"{case['algo']}: not the smallest estimate at the limit", **info)


def st_real():
  def more(alg):
    return st.fixed_dictionaries(dict(
        alg=st.just(alg), algo=st.sampled_from(["uniform", "lucb", "se"]),
        stable=st.booleans(), fixed=st.booleans(),
        units=st.sampled_from([20, 60, 200, 301]), updates=st.integers(2, 60),
        delta=st.sampled_from([.01, .05, .2]), tol=st.sampled_from([0, 0, 0, .1, .5, 2]),
        burn_in=st.sampled_from([2, 50, 200]), seed=st.integers(0, 2**31)))
  pair = st.tuples(st.sampled_from([.2, .5, .6, .9, 1, 1, 1.5, 3, 4]),
                   st.sampled_from([1, 1, 1, 2, .5]))
  return st.tuples(st.sampled_from(["CHI2", "CHI2", "CLT", "FINITE"]).flatmap(more),
                   st.lists(pair, min_size=2, max_size=5)).map(
                       lambda v: dict(v[0], sd=[p[0] for p in v[1]],
                                      costs=[p[1] for p in v[1]]))


SUBS = [Sub("valid", st_valid, fn_valid, 3500), Sub("real", st_real, fn_real, 1500)]
