"""Confidence intervals follow the selected method."""
import numpy as np
import scipy.stats
from hypothesis import strategies as st

from vlib import armkit, nuis, repo
from vlib.core import Sub, close, interval, raises, require

ID = "A03"
RULE = ("formula: update histories, methods, settings and score distributions against the "
        "method's formula; real: the same with the bundled estimators and their widths; "
        "order: twin histories under a smaller error probability; reject: invalid error "
        "probabilities and settings; non-trivial = a non-vacuous interval was compared, or "
        "(reject) always")


def expected(case, s, delta, pulls, width):
  """(low, high) of the interval from the held-out scores."""
  g = dict(armkit.BASE, **case["settings"])
  n = len(s)
  v = np.mean((s - np.mean(s))**2)
  alg = case["alg"]
  if alg == "CHI2":
    if n < 2:
      return 0, np.inf
    q = scipy.stats.chi2.ppf([1 - delta / 2, delta / 2], df=n - 1)
    return tuple(v * (n - 1) / q)
  if alg == "CLT":
    dt = delta / pulls**2
    z = -scipy.stats.norm.ppf(dt / 2)
    w = z * np.sqrt(np.var((s - np.mean(s))**2) / n)
    return max(v - w, 0), v + w
  if n < g["burn_in"]:
    return 0, np.inf
  sg = g["sub_gscale"]
  lam = max(sg, 8 * sg * sg)
  rad = 2 * np.log(lam * n / g["burn_in"]) / n + .5 + np.log(4 / delta)
  if rad < 0:
    return 0, np.inf
  w = 5 / 8 * (np.sqrt(2 * sg) + g["tau_bound"]) * np.sqrt(rad / n) + width**2
  return max(v - w, 0), v + w


def compare(arm, out, s, case, delta, pulls, width, what):
  lo, hi = interval(out, what + ": returned")
  plo, phi = interval(arm.ci, what + ": published")
  require(lo == plo and hi == phi, f"{what}: returned and published intervals differ",
          returned=(lo, hi), published=(plo, phi))
  wlo, whi = expected(case, s, delta, pulls, width)
  size = 1e-300 + np.abs(s).max()**2
  info = dict(alg=case["alg"], delta=delta, n=len(s), pulls=pulls, settings=case["settings"])
  close(lo, wlo, f"{what}: lower bound", rtol=1e-6, atol=1e-9 * size, **info)
  close(hi, whi, f"{what}: upper bound", rtol=1e-6, atol=1e-9 * size, **info)
  if case["alg"] != "CHI2":
    eps = 1e-9 * size
    require(0 <= lo and lo <= arm.var_est + eps and arm.var_est <= hi + eps,
            f"{what}: the interval does not contain the estimate", ci=(lo, hi),
            var=arm.var_est)
  return np.isfinite(whi)


def fn_formula(case, rec):
  batches = armkit.sizes_to_ids(case["sizes"])
  pool = armkit.Pool(sum(case["sizes"]) + 1, case["seed"] % 1000)
  tr, tcov = armkit.transformer("identity")
  eta = armkit.RecorderEta(pool, tcov, case)
  arm = armkit.make_arm(case, eta, tr)
  g = dict(armkit.BASE, **case["settings"])
  model = armkit.FoldModel(case["stable"])
  finite = False
  for k, ids in enumerate(batches):
    delta = case["deltas"][k % len(case["deltas"])]
    eta.calls.clear()
    eta.widths.clear()
    what = f"update {k}"
    try:
      out = arm.update(pool.take(ids), delta)
      raised = None
    except ValueError as e:
      raised = e
    _, f1 = model.update(ids, eta.calls, what)
    require(raised is None, f"{what} raised {raised}")
    if not eta.ready or not f1:
      require(tuple(out) == (0, np.inf), f"{what}: not vacuous", got=out)
      continue
    s = armkit.score_fn(np.array(sorted(f1)), eta.digest(), case)
    width = 0
    if case["alg"] == "FINITE":
      width = eta.width(delta / 2, g["eta_sub_gscale"], g["rho"])
      if len(f1) >= g["burn_in"]:
        require(eta.widths, f"{what}: the nuisance width was not used")
        close(eta.widths[-1], (delta / 2, g["eta_sub_gscale"], g["rho"]),
              f"{what}: arguments of the nuisance width", rtol=1e-9)
    if compare(arm, out, s, case, delta, k + 1, width, what):
      finite = True
    rec.label(case["alg"])
    if not np.isfinite(arm.ci[1]):
      rec.label(case["alg"] + " vacuous")
  rec.nontrivial(finite)


def st_settings():
  return st.fixed_dictionaries(dict(
      sub_gscale=st.one_of(st.sampled_from([1, .05, .1, .125, .5, 2, 3]),
                           st.sampled_from([.121, .123, .127, .13]), st.floats(.02, 4)),
      eta_sub_gscale=st.sampled_from([1, .5, 2]), tau_bound=st.sampled_from([1, .1, 4]),
      burn_in=st.sampled_from([2, 1.5, 3, 5, 7, 10, 20]), rho=st.sampled_from([.1, 1, .01]),
      cost=st.sampled_from([1, 2.5])))


def st_formula():
  return st.fixed_dictionaries(dict(
      sizes=armkit.st_sizes(8), stable=st.booleans(),
      alg=st.sampled_from(sorted(armkit.ALGS)), need=st.sampled_from([0, 1, 2, 5]),
      deltas=st.lists(st.sampled_from(armkit.DELTAS), min_size=1, max_size=3),
      scores=st.sampled_from(["normal", "const", "big", "small", "heavy", "binary"]),
      settings=st_settings(), width=st.sampled_from([0, .1, .5, "inf"]),
      seed=st.integers(0, 2**31)))


def fn_real(case, rec):
  e = case["e"]
  full, ids_of = armkit.real_pool(sum(case["sizes"]) + 1, e["d"],
                                  e["kind"].startswith("Front"), case["seed"] % 1000)
  spy = armkit.Spy(nuis.make_estimator(e), ids_of)
  arm = armkit.make_arm(case, spy, armkit.data.get_identity_fn())
  g = dict(armkit.BASE, **case["settings"])
  model = armkit.FoldModel(case["stable"])
  finite = False
  for k, ids in enumerate(armkit.sizes_to_ids(case["sizes"])):
    spy.calls.clear()
    what = f"update {k} with {e['kind']}"
    out = arm.update(full[np.array(ids, dtype=int)], case["delta"])
    f0, f1 = model.update(ids, spy.calls, what)
    if not spy.inner.has_enough_samples() or not f1:
      require(tuple(out) == (0, np.inf), f"{what}: not vacuous", got=out)
      continue
    s = spy.inner.calculate_score(full[np.array(sorted(f1), dtype=int)])
    w = 0
    if case["alg"] == "FINITE":
      w = spy.inner.calculate_cs_width(case["delta"] / 2, sub_g=g["eta_sub_gscale"],
                                       rho=g["rho"])
    if compare(arm, out, s, case, case["delta"], k + 1, w, what):
      finite = True
  rec.label(e["kind"], case["alg"])
  rec.nontrivial(finite)


def st_real():
  return st.fixed_dictionaries(dict(
      e=nuis.st_estimator(["AIPW", "AIPWLinearLogistic", "AIPWKernelRidgeLogistic",
                           "FrontDoorLinearFiniteZ"]), stable=st.booleans(),
      alg=st.sampled_from(["CHI2", "CLT", "FINITE", "FINITE"]), settings=st_settings(),
      sizes=st.lists(st.sampled_from([8, 12, 20, 21, 30]), min_size=2, max_size=4),
      delta=st.sampled_from([.01, .1, .5]), seed=st.integers(0, 2**31)))


def fn_order(case, rec):
  batches = armkit.sizes_to_ids(case["sizes"])
  pool = armkit.Pool(sum(case["sizes"]) + 1, case["seed"] % 1000)
  tr, tcov = armkit.transformer("identity")
  twins = []
  for small in (False, True):
    eta = armkit.RecorderEta(pool, tcov, case)
    arm = armkit.make_arm(case, eta, tr)
    out = []
    for k, ids in enumerate(batches):
      np.random.seed((case["seed"] + k) % 2**32)
      delta = case["deltas"][k % len(case["deltas"])]
      if small:
        delta *= case["shrink"]
      try:
        out.append(interval(arm.update(pool.take(ids), delta), "interval"))
      except ValueError:
        require(eta.ready, "update raised ValueError before the samples suffice")
        out.append(None)
        break
    twins.append(out)
  finite = False
  for k, (a, b) in enumerate(zip(*twins)):
    require((a is None) == (b is None), "only one error probability raised", update=k)
    if a is None:
      break
    delta = case["deltas"][k % len(case["deltas"])]
    if case["alg"] == "FINITE" and not np.isfinite(a[1]):
      continue  # before burn-in
    tol = 1e-9 * (1 + abs(a[0]) + (abs(a[1]) if np.isfinite(a[1]) else 0))
    require(b[0] <= a[0] + tol and b[1] >= a[1] - tol,
            "a smaller error probability gave a narrower interval", alg=case["alg"],
            larger=(delta, a), smaller=(delta * case["shrink"], b))
    finite |= bool(np.isfinite(a[1]))
  rec.label(case["alg"])
  rec.nontrivial(finite)


def st_order():
  return st.fixed_dictionaries(dict(
      sizes=armkit.st_sizes(5), stable=st.booleans(), need=st.sampled_from([0, 1, 5]),
      alg=st.sampled_from(sorted(armkit.ALGS)), settings=st_settings(),
      deltas=st.lists(st.sampled_from(armkit.DELTAS), min_size=1, max_size=3),
      shrink=st.sampled_from([.99, .5, .01]), scores=st.sampled_from(["normal", "const", "heavy"]),
      width=st.sampled_from([0, .5]), seed=st.integers(0, 2**31)))


def fn_reject(case, rec):
  batches = armkit.sizes_to_ids(case["sizes"])
  pool = armkit.Pool(sum(case["sizes"]) + 40, case["seed"] % 1000)
  tr, tcov = armkit.transformer("identity")
  if case["what"] == "delta":
    eta = armkit.RecorderEta(pool, tcov, case)
    arm = armkit.make_arm(case, eta, tr)
    model = armkit.FoldModel(case["stable"])
    for k, ids in enumerate(batches):
      if k == case["at"] % (len(batches) + 1):
        before = armkit.state(arm)
        eta.calls.clear()
        raises(ValueError, lambda: arm.update(pool.take(ids), case["bad_delta"]),
               f"update with error probability {case['bad_delta']}")
        armkit.same_state(armkit.state(arm), before, "after a rejected update")
        require(not eta.calls, "a rejected update reached the nuisance parameter")
      eta.calls.clear()
      try:
        arm.update(pool.take(ids), .1)
      except ValueError:
        require(eta.ready, "update raised ValueError")
        return
      model.update(ids, eta.calls, f"update {k}")  # rejected data was not consumed
    rec.label("error probability")
  else:
    bad = dict(case["settings"])
    bad[case["what"]] = case["bad_value"]
    ids = list(range(sum(case["sizes"]), sum(case["sizes"]) + 40))
    eta = armkit.RecorderEta(pool, tcov, dict(case, need=5))

    def go():
      if case["what"] == "method":
        arm = armkit.arms.SampleSplittingArm("a", eta, tr,
                                             ci_algorithm=case["bad_method"])
      else:
        arm = armkit.make_arm(dict(case, settings=bad, alg="FINITE"), eta, tr)
      arm.update(pool.take(ids), .1)

    if case["what"] == "burn_in" and not case["bad_value"] <= 1:
      return
    raises(ValueError, go, f"{case['what']} = " + str(
        case["bad_method"] if case["what"] == "method" else case["bad_value"]))
    rec.label(case["what"])
  rec.nontrivial()


def st_reject():
  return st.fixed_dictionaries(dict(
      what=st.sampled_from(["delta", "delta", "tau_bound", "burn_in", "sub_gscale", "method"]),
      bad_delta=st.sampled_from([0, 1, 0.0, 1.0, -.1, 1.5, np.inf, -np.inf, np.nan, 2]),
      bad_value=st.sampled_from([0, -1, -.5]),
      bad_method=st.sampled_from(["bootstrap", 3, None]),
      at=st.integers(0, 5), sizes=armkit.st_sizes(5), stable=st.booleans(),
      alg=st.sampled_from(sorted(armkit.ALGS)), settings=st_settings(),
      need=st.sampled_from([1, 5]), scores=st.just("normal"), width=st.just(.1),
      seed=st.integers(0, 2**31)))


SUBS = [
    Sub("formula", st_formula, fn_formula, 2500),
    Sub("real", st_real, fn_real, 250),
    Sub("order", st_order, fn_order, 1500),
    Sub("reject", st_reject, fn_reject, 800),
]
