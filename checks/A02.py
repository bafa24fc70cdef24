"""Arm estimates are the mean and variance of held-out scores."""
import numpy as np
from hypothesis import strategies as st

from vlib import armkit, nuis, repo
from vlib.core import Sub, close, interval, raises, require

ID = "A02"
RULE = ("stub: update histories on an arm whose recording nuisance parameter becomes ready "
        "after a generated number of units and scores units by a known function of the unit "
        "and the last fit (constant, heavy-tailed, huge, tiny, NaN or infinite scores); real: "
        "the bundled estimators, scores recomputed on the held-out units; large: up to 450000 "
        "units with a drift, non-trivial = more than 20000; otherwise non-trivial = at "
        "least two updates with defined estimates")


def vacuous(arm, out, what):
  require(tuple(out) == (0, np.inf) and tuple(arm.ci) == (0, np.inf),
          f"{what}: the interval is not [0, inf)", returned=out, ci=arm.ci)
  require(arm.ate is not None and np.isnan(arm.ate), f"{what}: effect", got=arm.ate)
  require(arm.var_est == np.inf, f"{what}: variance", got=arm.var_est)


def published(arm, s, what):
  with np.errstate(all="ignore"):
    m = np.mean(s)
    v = np.mean((s - m)**2)
  size = np.abs(s).max()
  close(arm.ate, m, f"{what}: effect", rtol=1e-9, atol=1e-12 * size)
  close(arm.var_est, v, f"{what}: variance", rtol=1e-6, atol=1e-20 * size**2)


def fn_stub(case, rec):
  batches = armkit.sizes_to_ids(case["sizes"])
  pool = armkit.Pool(sum(case["sizes"]) + 1, case["seed"] % 1000)
  tr, tcov = armkit.transformer(case["tr"])
  eta = armkit.RecorderEta(pool, tcov, case)
  arm = armkit.make_arm(case, eta, tr)
  model = armkit.FoldModel(case["stable"])
  defined = 0
  for k, ids in enumerate(batches):
    eta.calls.clear()
    what = f"update {k}"
    try:
      out = arm.update(pool.take(ids), case["delta"])
      raised = None
    except ValueError as e:
      raised = e
    _, f1 = model.update(ids, eta.calls, what)
    if not eta.ready or not f1:
      require(raised is None, f"{what} raised {raised} before the samples suffice")
      vacuous(arm, out, what)
      rec.label("insufficient" if f1 else "no held-out units")
      continue
    i = np.array(sorted(f1), dtype=int)
    s = armkit.score_fn(i, eta.digest(), case)
    if case["bad"] is not None:
      s = np.where(np.mod(i, 5) == 2, case["bad"], s)
    if not np.isfinite(s).all():
      require(raised is not None, f"{what}: an undefined variance was not reported",
              var=arm.var_est, scores=s[:9])
      rec.label("undefined variance")
      return
    require(raised is None, f"{what} raised {raised}")
    published(arm, s, what)
    interval(out, "the returned interval")
    defined += 1
    rec.label("defined")
  rec.nontrivial(defined > 1)


def st_stub():
  return st.fixed_dictionaries(dict(
      sizes=armkit.st_sizes(8), stable=st.booleans(), tr=st.sampled_from(armkit.TRANSFORMS),
      alg=st.sampled_from(sorted(armkit.ALGS)), need=st.sampled_from([0, 1, 2, 5, 10]),
      delta=st.sampled_from([.01, .1]),
      scores=st.sampled_from(["normal", "const", "big", "small", "heavy", "binary", "offset"]),
      bad=st.sampled_from([None, None, None, None, np.nan, np.inf]).map(
          lambda v: v), width=st.sampled_from([0, .1, "inf"]), seed=st.integers(0, 2**31)))


def fn_large(case, rec):
  """Many units: the estimates are those of all held-out scores."""
  eta = Known()
  arm = armkit.make_arm(case, eta, armkit.data.get_identity_fn())
  rs = np.random.RandomState([case["seed"], 9])
  for k, n in enumerate(case["sizes"]):
    # A drift, so that the first units differ from the last ones.
    y = rs.normal(size=n) + k * case["drift"] + np.arange(n) * case["drift"] / n
    arm.update(armkit.data.ExpData(np.zeros((n, 1)), np.arange(n) % 2, y), case["delta"])
    published(arm, eta.scores, f"update {k} ({len(eta.scores)} held-out units)")
  total = sum(case["sizes"])
  require(abs(2 * len(eta.scores) - total) <= len(case["sizes"]), "number of held-out units",
          got=len(eta.scores), of=total)
  rec.nontrivial(total > 20000)


class Known(armkit.parameters.NuisanceParameter):
  """The scores are the responses; remembers those asked for since the last fit."""

  def __init__(self):
    self.scores = np.zeros(0)

  def fit(self, d):
    self.scores = np.zeros(0)

  def calculate_score(self, d):
    s = np.array(d.rsp, dtype=float)
    self.scores = s.copy() if len(s) >= len(self.scores) else self.scores
    return s

  def has_enough_samples(self):
    return True

  def calculate_cs_width(self, delta, sub_g, rho):
    return 0.0

  def reset(self):
    self.scores = np.zeros(0)


def st_large():
  return st.fixed_dictionaries(dict(
      sizes=st.lists(st.sampled_from([4, 1000, 5000, 30000, 60001, 150000]), min_size=1,
                     max_size=3),
      stable=st.booleans(), alg=st.sampled_from(sorted(armkit.ALGS)),
      drift=st.sampled_from([0, 1, 10]), delta=st.sampled_from([.01, .1]),
      settings=st.just(dict(tau_bound=50)), seed=st.integers(0, 2**31)))


def fn_real(case, rec):
  e = case["e"]
  n = sum(case["sizes"])
  full, ids_of = armkit.real_pool(n + 1, e["d"], e["kind"].startswith("Front"),
                                  case["seed"] % 1000)
  spy = armkit.Spy(nuis.make_estimator(e), ids_of)
  arm = armkit.make_arm(case, spy, armkit.data.get_identity_fn())
  model = armkit.FoldModel(case["stable"])
  defined = 0
  for k, ids in enumerate(armkit.sizes_to_ids(case["sizes"])):
    spy.calls.clear()
    what = f"update {k} with {e['kind']}"
    try:
      out = arm.update(full[np.array(ids, dtype=int)], case["delta"])
      raised = None
    except ValueError as ex:
      raised = ex
    f0, f1 = model.update(ids, spy.calls, what)
    armkit.check_calls(spy.calls, f0, f1, what)
    require(raised is None, f"{what} raised {raised}")
    t = full.exp[sorted(f0)] if f0 else np.zeros(0)
    require(not nuis.sufficient(e, (t == 0).sum(), (t == 1).sum()) or
            spy.inner.has_enough_samples(), f"{what}: not ready")
    if not spy.inner.has_enough_samples() or not f1:
      vacuous(arm, out, what)
      continue
    s = spy.inner.calculate_score(full[np.array(sorted(f1), dtype=int)])
    published(arm, s, what)
    defined += 1
  rec.label(e["kind"])
  rec.nontrivial(defined > 1)


def st_real():
  return st.fixed_dictionaries(dict(
      e=nuis.st_estimator(), stable=st.booleans(), alg=st.sampled_from(["CHI2", "CLT"]),
      sizes=st.lists(st.sampled_from([3, 5, 8, 12, 20, 21]), min_size=2, max_size=5),
      delta=st.sampled_from([.01, .1]), seed=st.integers(0, 2**31)))


SUBS = [Sub("stub", st_stub, fn_stub, 2500), Sub("real", st_real, fn_real, 300),
        Sub("large", st_large, fn_large, 40)]
