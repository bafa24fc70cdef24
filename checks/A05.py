"""Bootstrap and base arms keep the arm contract."""
import math

import numpy as np
import scipy.stats
from hypothesis import strategies as st

from vlib import armkit, repo
from vlib.core import Sub, arr, close, interval, near, raises, require, scalar

arms = armkit.arms
data = armkit.data
ID = "A05"
RULE = ("bootstrap: update histories on a bootstrap arm with a recording nuisance parameter; "
        "the recorded resamples are checked to partition the first fold and the interval and "
        "estimates recomputed from the recorded scores; non-trivial = at least two updates "
        "with a defined interval. generic: update/reset histories of the generic arm")


def vacuous(arm, out, what):
  require(tuple(out) == (0, np.inf) and tuple(arm.ci) == (0, np.inf),
          f"{what}: the interval is not [0, inf)", returned=out, ci=arm.ci)


def order_stats(samples, delta):
  """Admissible order statistics (float rounding of the index allowed)."""
  n = len(samples)
  b = np.sort(samples)
  idx = lambda v, f: {min(max(f(v + e), 0), n - 1) for e in (-1e-9, 0, 1e-9)}
  low = [b[i] for i in idx(delta / 2 * n, math.floor)]
  high = [b[i] for i in idx((1 - delta / 2) * n - 1, math.ceil)]
  return low, high


def fn_bootstrap(case, rec):
  batches = armkit.sizes_to_ids(case["sizes"])
  pool = armkit.Pool(sum(case["sizes"]) + 1, case["seed"] % 1000)
  tr, tcov = armkit.transformer(case["tr"])
  eta = armkit.RecorderEta(pool, tcov, case)
  arm = arms.BootstrapArm("b", eta, tr, n_bootstraps=case["nb"],
                          stable_splits=case["stable"])
  require(arm.get_num_units() == 0 and arm.num_pulled == 0 and arm.name == "b",
          "a new bootstrap arm is not empty")
  require(arm.cost == 1, "a bootstrap arm has no unit cost", cost=arm.cost)
  model = armkit.FoldModel(case["stable"])
  total = good = 0
  parts = {}  # sizes of the parts of the resamples, by the number of resamples
  for k, ids in enumerate(batches):
    what = f"update {k}"
    if k == case["bad_at"]:
      before = armkit.state(arm)
      eta.calls.clear()
      raises(ValueError, lambda: arm.update(pool.take(ids), case["bad_delta"]),
             f"update with error probability {case['bad_delta']}")
      armkit.same_state(armkit.state(arm), before, "after a rejected update")
      require(not eta.calls, "a rejected update reached the nuisance parameter")
    eta.calls.clear()
    delta = case["deltas"][k % len(case["deltas"])]
    d = pool.take(ids)
    snap = (d.cov.copy(), d.exp.copy(), d.rsp.copy())
    out = arm.update(d, delta)
    require(np.array_equal(d.cov, snap[0]) and np.array_equal(d.exp, snap[1]) and
            np.array_equal(d.rsp, snap[2]), f"{what} changed the caller's data")
    total += len(ids)
    require(arm.num_pulled == k + 1, f"{what}: num_pulled", got=arm.num_pulled)
    require(arm.get_num_units() == total, f"{what}: get_num_units",
            got=arm.get_num_units(), want=total)
    f0, f1 = model.update(ids, eta.calls, what)
    if not eta.ready or not f1:
      vacuous(arm, out, what)
      require(np.isnan(scalar(arm.ate, f"{what}: effect")) and
              scalar(arm.var_est, f"{what}: variance") == np.inf, f"{what}: estimates before the "
              "samples suffice", ate=arm.ate, var=arm.var_est)
      rec.label("insufficient" if f1 else "empty second fold")
      continue
    # Pair the fits on parts of fold 0 with the scores that follow them.
    pairs, held = [], []
    last_fit = None
    for op, key, s in eta.calls:
      if op == "fit":
        require(set(key) <= f0, f"{what}: fitted on held-out units")
        last_fit = key
      elif set(key) == f1 and (f1 or len(pairs) >= expected_n(case, delta)[0]):
        held.append(s)
      else:
        require(set(key) <= f0, f"{what}: scored a mix of the folds")
        require(sorted(set(key) | set(last_fit)) == sorted(f0) and
                len(key) + len(last_fit) == len(f0),
                f"{what}: a resample does not partition the first fold",
                fitted=last_fit, scored=key, fold=sorted(f0))
        pairs.append(s)
        parts.setdefault(expected_n(case, delta)[0], []).append((len(last_fit), len(key)))
    want_n = expected_n(case, delta)
    require(len(pairs) in want_n, f"{what}: number of resamples", got=len(pairs),
            want=want_n, delta=delta)
    with np.errstate(all="ignore"):
      b = np.array([np.var(s) if len(s) else np.nan for s in pairs])
    low, high = order_stats(b, delta)
    lo, hi = interval(out, what)
    plo, phi = interval(arm.ci, what)
    eq = lambda x, y: near(x, y, 1e-9, 1e-9)
    require(eq(lo, plo) and eq(hi, phi), f"{what}: returned and published interval differ",
            returned=out, published=arm.ci)
    if np.isnan(b).any():
      rec.label("a resample leaves nothing to score")  # no order among the samples
    else:
      require(any(eq(lo, v) for v in low), f"{what}: lower bound", got=lo, want=low,
              n=len(b), delta=delta)
      require(any(eq(hi, v) for v in high), f"{what}: upper bound", got=hi, want=high,
              n=len(b), delta=delta)
      good += 1
    require(held, f"{what}: the second fold was not scored")
    ate, var = scalar(arm.ate, f"{what}: effect"), scalar(arm.var_est, f"{what}: variance")
    require(any(eq(ate, float(np.mean(s))) for s in held), f"{what}: effect",
            got=arm.ate, want=[np.mean(s) for s in held])
    require(any(eq(var, float(np.var(s))) for s in held),
            f"{what}: variance", got=arm.var_est, want=[np.var(s) for s in held])
  for n, p in parts.items():  # one part takes each unit with probability 1/n
    units = sum(map(sum, p))
    ok = [lo <= sum(q) <= hi for q in zip(*p) for lo, hi in
          [scipy.stats.binom.ppf([1e-10, 1 - 1e-10], units, 1 / n)]]
    require(any(ok), f"{n} resamples of {units} units in all: no part has a share of 1/{n}",
            sizes=p)
  rec.label("stable" if case["stable"] else "resplit",
            "default resamples" if not case["nb"] else "given resamples")
  rec.nontrivial(good > 1)


def expected_n(case, delta):
  if case["nb"]:
    return [case["nb"]]
  return sorted({math.ceil(4 / delta - 1e-9), math.ceil(4 / delta + 1e-9)})


def st_bootstrap():
  return st.fixed_dictionaries(dict(
      sizes=armkit.st_sizes(5), stable=st.booleans(), tr=st.sampled_from(armkit.TRANSFORMS),
      nb=st.sampled_from([0, 0, 2, 3, 7, 10, 33]), need=st.sampled_from([0, 1, 2, 5]),
      deltas=st.lists(st.sampled_from([.05, .1, .3, .37, .5, .8, .9]), min_size=1,
                      max_size=2),
      bad_at=st.sampled_from([-1, 0, 1]),
      bad_delta=st.sampled_from([0, 1, -.5, 1.5, np.nan, np.inf]),
      scores=st.sampled_from(["normal", "const", "small", "heavy", "binary"]),
      seed=st.integers(0, 2**31)))


def st_many():
  """Error probabilities and resample counts of serious use."""
  return st.fixed_dictionaries(dict(
      sizes=st.lists(st.integers(4, 40), min_size=1, max_size=2), stable=st.booleans(),
      tr=st.just("identity"), nb=st.sampled_from([0, 0, 0, 120, 700, 1500, 2500]),
      need=st.sampled_from([0, 2]),
      deltas=st.lists(st.sampled_from([.02, .01, .007, .004, .003, .002, .001]), min_size=1,
                      max_size=2),
      bad_at=st.just(-1), bad_delta=st.just(0),
      scores=st.sampled_from(["normal", "small", "heavy", "binary"]),
      seed=st.integers(0, 2**31)))


def fn_generic(case, rec):
  pool = armkit.Pool(60, 1)
  tr, tcov = armkit.transformer("identity")
  eta = armkit.RecorderEta(pool, tcov, dict(need=0, scores="normal"))
  arm = arms.VarianceEstimatorArm("g", eta, tr, cost=case["cost"])
  pulls = 0
  for op in case["ops"]:
    if op == "reset":
      r = eta.resets
      arm.reset()
      pulls = 0
      require(eta.resets > r, "reset did not reset the nuisance parameter")
    else:
      out = arm.update(pool.take(range(op)), .1)
      pulls += 1
      vacuous(arm, out, "generic update")
    require(arm.num_pulled == pulls, "generic arm: num_pulled", got=arm.num_pulled,
            want=pulls)
    require(arm.get_num_units() == 0, "generic arm: get_num_units")
    require(arm.name == "g" and arm.cost == case["cost"], "generic arm: name or cost")
  require(arm.eta is eta, "generic arm: eta")
  # Every arm keeps its name and cost; the cost is one if it is left out.
  kw = {} if case["cost"] == 1 else dict(cost=case["cost"])
  alg = armkit.ALGS[case["alg"]]
  every = [arms.VarianceEstimatorArm("g", eta, tr, **kw), arms.BootstrapArm("g", eta, tr, 2),
           arms.SampleSplittingArm("g", eta, tr, ci_algorithm=alg, **kw)]
  for a in every:
    cost = 1 if isinstance(a, arms.BootstrapArm) else case["cost"]
    for op in [None] + case["ops"]:
      if op == "reset":
        a.reset()
      elif op and op > 1:  # both folds
        a.update(pool.take(range(op)), .1)
      require(a.name == "g" and a.cost == cost and a.eta is eta,
              f"{type(a).__name__}: name, cost or eta", name=a.name, cost=a.cost)
  rec.nontrivial(len(case["ops"]) > 2)


def st_generic():
  return st.fixed_dictionaries(dict(
      alg=st.sampled_from(["CHI2", "CLT"]),
      ops=st.lists(st.one_of(st.integers(0, 20), st.just("reset")), max_size=8),
      cost=st.sampled_from([1, .5, 3]), seed=st.just(0)))


SUBS = [
    Sub("bootstrap", st_bootstrap, fn_bootstrap, 1600),
    Sub("many", st_many, fn_bootstrap, 32),
    Sub("generic", st_generic, fn_generic, 300),
]
