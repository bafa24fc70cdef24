"""Resetting an arm makes it indistinguishable from a new one."""
import numpy as np
from hypothesis import strategies as st

from vlib import armkit, nuis, repo
from vlib.core import Sub, require

arms = armkit.arms
data = armkit.data
ID = "A04"
RULE = ("reset: an arm (sample-splitting with every method, bootstrap or generic; stub or "
        "bundled estimator) lives through a generated history with failing updates and "
        "earlier resets, is reset, and is compared with a new arm right away and after every "
        "later update under the same random state; non-trivial = the history and the "
        "replayed part both contain an update with defined estimates")


def history(case):
  """Update sizes before the reset; some histories are long, some empty."""
  if case.get("prefit") == 2:
    return []
  if case["e"]["kind"] == "stub" and case["long"]:
    return case["before"] + [2] * case["long"]
  return case["before"]


def make(case, full, ids_of):
  e = case["e"]
  if e["kind"] == "stub":
    pool = armkit.Pool(sum(history(case)) + sum(case["after"]) + 1, case["seed"] % 1000)
    tr, tcov = armkit.transformer(case["tr"])
    eta = armkit.RecorderEta(pool, tcov, case)
    take = lambda ids: pool.take(ids)
  else:
    tr = data.get_identity_fn()
    eta = nuis.make_estimator(dict(e, online=case["online"]))
    take = lambda ids: full[np.array(ids, dtype=int)]
  if case["arm"] == "generic":
    arm = arms.VarianceEstimatorArm(case["name"], eta, tr, case["cost"])
  elif case["arm"] == "bootstrap":
    arm = arms.BootstrapArm(case["name"], eta, tr, n_bootstraps=case["nb"],
                            stable_splits=case["stable"])
  else:
    arm = armkit.make_arm(dict(case, settings=dict(case["settings"], cost=case["cost"])),
                          eta, tr)
  return arm, take


def step(arm, d, delta, seed):
  np.random.seed(seed % 2**32)
  try:
    out = arm.update(d, delta)
    return ("ok", tuple(float(v) for v in out))
  except ValueError:
    return ("ValueError", None)


def defined(arm):
  return arm.var_est is not None and np.isfinite(arm.var_est)


def fn_reset(case, rec):
  e = case["e"]
  before = history(case)
  full, ids_of = (None, None)
  if e["kind"] != "stub":
    full, ids_of = armkit.real_pool(sum(before) + sum(case["after"]) + 1, e["d"],
                                    e["kind"].startswith("Front"), case["seed"] % 1000)
  arm, take = make(case, full, ids_of)
  new, take_new = make(case, full, ids_of)
  all_ids = armkit.sizes_to_ids(before + case["after"])
  nb = len(before)
  lived = False
  if case.get("prefit"):  # somebody used the nuisance parameter before
    pre = take(np.arange(sum(before) + sum(case["after"])))
    arm.eta.fit(armkit.transformer(case["tr"])[0](pre) if e["kind"] == "stub" else pre)
    lived |= bool(arm.eta.has_enough_samples())
    rec.label("fitted before the first update")
  for k, ids in enumerate(all_ids[:nb]):
    pool_eta = arm.eta if e["kind"] == "stub" else None
    if pool_eta is not None:
      # Failing updates: the last one before the reset yields undefined scores.
      pool_eta.case = dict(case, bad=np.nan if case["bad"] and k == nb - 1 else None)
    if k in case["resets"]:
      arm.reset()
    step(arm, take(ids), case["delta"], case["seed"] + 1000 + k)
    lived |= defined(arm)
  if e["kind"] == "stub":
    arm.eta.case = new.eta.case = dict(case, bad=None)
  if case["reject"]:
    step(arm, take([]), 2.0, 1)
  arm.reset()
  armkit.same_state(armkit.state(arm), armkit.state(new), "right after the reset")
  require(bool(arm.eta.has_enough_samples()) == bool(new.eta.has_enough_samples()),
          "the nuisance estimator of a reset arm is not in its initial state")
  require(arm.name == new.name == case["name"], "the name changed", got=arm.name)
  require(arm.cost == new.cost, "the cost changed", got=arm.cost, want=new.cost)
  replayed = False
  for k, ids in enumerate(all_ids[nb:]):
    a = step(arm, take(ids), case["delta2"], case["seed"] + k)
    b = step(new, take_new(ids), case["delta2"], case["seed"] + k)
    what = f"update {k} after the reset ({case['arm']}, {e['kind']})"
    require(a[0] == b[0], f"{what}: outcome", got=a, want=b)
    if a[0] == "ok":
      require(armkit.same_value(a[1], b[1]), f"{what}: returned interval", got=a, want=b)
      armkit.same_state(armkit.state(arm), armkit.state(new), what)
    replayed |= defined(arm)
  rec.label(case["arm"], e["kind"])
  rec.nontrivial(lived and replayed)


def st_reset():
  stub = st.just(dict(kind="stub", d=2))
  sizes = st.lists(st.sampled_from([0, 2, 5, 8, 16, 21]), min_size=1, max_size=4)
  return st.fixed_dictionaries(dict(
      e=st.one_of(stub, stub, nuis.st_estimator()), before=sizes, after=sizes,
      arm=st.sampled_from(["split", "split", "split", "bootstrap", "generic"]),
      name=st.sampled_from(["arm", "", "Z0"]), cost=st.sampled_from([1, 2.5, 0.1]),
      nb=st.sampled_from([0, 2, 5, 9]), stable=st.booleans(), reject=st.booleans(),
      prefit=st.sampled_from([0, 0, 0, 0, 1, 2]), bad=st.sampled_from([None, None, None, "nan"]), online=st.booleans(),
      long=st.sampled_from([0, 0, 0, 0, 0, 0, 0, 30, 130]),
      resets=st.lists(st.integers(0, 3), max_size=1), need=st.sampled_from([0, 2, 6]),
      alg=st.sampled_from(["CHI2", "CLT", "FINITE"]),
      settings=st.fixed_dictionaries(dict(burn_in=st.sampled_from([2, 6]))),
      delta=st.sampled_from([.1, .4]), delta2=st.sampled_from([.1, .3]),
      tr=st.sampled_from(["identity", "mask1"]),
      scores=st.sampled_from(["normal", "heavy"]), width=st.sampled_from([0, .5]),
      seed=st.integers(0, 2**31)))


def fn_filter(case, rec):
  # LinearParameterBinaryTreatment and LinearRegressionParameter have no width.
  if case["e"]["kind"].startswith("Linear") and case["alg"] == "FINITE":
    case = dict(case, alg="CLT")
  fn_reset(case, rec)


SUBS = [Sub("reset", st_reset, fn_filter, 1200)]
