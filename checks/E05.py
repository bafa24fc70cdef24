"""Every valid adjustment estimates the interventional effect."""
import re

import numpy as np
from hypothesis import strategies as st

from vlib import repo
from vlib.core import Sub, require, seed_case

data, scm, example, parameters, arms, paper = repo.load(
    "data", "scm", "example_scm", "parameters", "arms", "paper_utils")
CI = arms.CIAlgorithm

ID = "E05"
RULE = ("paper: random models of section 5.1 with 1-3 back-door paths; every arm is given the "
        "same 20000 units in a few updates and its effect compared with the effect of forcing "
        "the treatment (evaluated by the check itself on the conditional distributions); "
        "examples: the same for the bundled example models and the linear generator with "
        "every estimator that is consistent there; non-trivial = the adjusted and the "
        "unadjusted difference of means differ by more than the tolerance, or a front-door "
        "arm")
N = 20000
EFFECT = 30000


def forced(model, x, n):
  """Mean response, and its variance, with the treatment forced to x."""
  val = {}
  for v in model.var_names:
    if v == model.treatment_variable:
      val[v] = np.full(n, x)
    else:
      val[v] = np.asarray(model.cpds[v](n, [val[p] for p in model.parents[v]]))
  y = np.asarray(val[model.response_variable], float).ravel()
  return y.mean(), y.var() / n


def truth(model):
  (a, va), (b, vb) = forced(model, 1, EFFECT), forced(model, 0, EFFECT)
  return a - b, va + vb


def run_arm(arm, d, parts):
  at = 0
  for n in parts:
    arm.update(d[at:at + n], .1)
    at += n


def judge(arm, held, tau, var_tau, what, **info):
  """The effect is within 7 standard errors (and a little bias) of the truth.

  The scores are orthogonal, but the nuisance parameter is fitted on as many units as are held
  out, so its error is allowed for by doubling the standard error of the mean.
  """
  require(np.isfinite(arm.ate) and np.isfinite(arm.var_est), f"{what}: no estimate",
          ate=arm.ate, var=arm.var_est)
  tol = 7 * np.sqrt(2 * arm.var_est / held + var_tau) + .02 * (1 + abs(tau))
  require(abs(arm.ate - tau) <= tol, f"{what}: effect", got=arm.ate, want=tau, tolerance=tol,
          **info)
  return tol


def parts_of(case):
  """Sizes of the updates; a cut of 0 stands for a small first one."""
  cut = sorted({0, N} | {int(N * c / 20) * 2 or 50 for c in case["cuts"]})
  return np.diff(cut)


def naive(d):
  x = np.asarray(d.exp) == 1
  y = np.asarray(d.rsp, float)
  return y[x].mean() - y[~x].mean()


def columns(model, z, v, name):
  """The columns of one variable in the covariates the model generates."""
  at = 0
  for q in map(str, model.cov_variables):
    w = (z if q[0] == "Z" else v)[int(q[1:])]
    if q == name:
      return slice(at, at + w)
    at += w


def intercept(d, cov):
  """That of the least-squares fit of the response on the exposure and covariates."""
  x = np.column_stack([np.ones(len(d.exp)), d.exp, cov])
  return np.linalg.lstsq(x, np.asarray(d.rsp, float).ravel(), rcond=None)[0][0]


def fn_paper(case, rec):
  m = case["m"]
  z, v = list(case["z"][:m + 1]), [0] + list(case["v"][:m])
  model, arm_list, *_ = paper.get_section_5_1_example(
      z, v, seed=case["seed"] % 10**6, z_cost=1, v_cost=1, z0_cost=1, num_back_door_paths=m,
      sample_limit=1, units_per_round=10)
  seed_case(case)
  d = model.generate(N)
  x = np.asarray(d.exp)
  if min(x.sum(), N - x.sum()) < 2000:
    return
  tau, var_tau = truth(model)
  confounded = abs(naive(d) - tau)
  big = model.generate(EFFECT)
  # The documented response models have no intercept; moving the response by a constant puts
  # the truth inside them and leaves the effect alone.  It is the same for every back-door set.
  z0 = columns(model, z, v, "Z0")
  back = np.concatenate([big.cov[:, columns(model, z, v, f"V{i}")] for i in range(1, m + 1)], 1)
  shifts = {True: intercept(big, big.cov[:, z0]), False: intercept(big, back)}
  for arm in arm_list:
    shifted = data.ExpData(d.cov, d.exp, d.rsp - shifts[arm.name == "frontdoor"])
    run_arm(arm, shifted, parts_of(case))
    tol = judge(arm, N / 2, tau, var_tau, f"5.1, {arm.name}", naive=naive(d))
    rec.nontrivial(confounded > tol, "confounded")
    rec.nontrivial(arm.name == "frontdoor")
    projected(case, model, z, v, arm, d, big)
  rec.label(f"M={m}")


def projected(case, model, z, v, arm, d, big):
  """Without noise the arm recovers the coefficient that its adjustment set implies.

  The responses are replaced by their linear projection on the treatment and the variables
  in the arm's name, whose treatment coefficient is the adjusted effect.
  """
  names = (["Z0"] if arm.name == "frontdoor" else
           [a + b for a, b in re.findall(r"([ZV])_(\d+)", arm.name)])
  cols = [columns(model, z, v, q) for q in names]
  pick = lambda e: np.concatenate([e.cov[:, c] for c in cols], 1)
  x = np.column_stack([np.ones(len(big.exp)), big.exp, pick(big)])
  coef = np.linalg.lstsq(x, np.asarray(big.rsp, float).ravel(), rcond=None)[0][1:]
  cov = pick(d)
  rsp = d.exp * coef[0] + cov.dot(coef[1:])
  arm.reset()
  run_arm(arm, data.ExpData(d.cov, d.exp, rsp), parts_of(case))
  scale = abs(coef[0]) + (np.abs(coef[1:]) * cov.std(0)).sum()
  if arm.name != "frontdoor":
    want, tol = coef[0], .002 * scale
  else:
    f = cov.dot(coef[1:])
    one = np.asarray(d.exp) == 1
    want = f[one].mean() - f[~one].mean()
    tol = 7 * f.std() * np.sqrt(1 / one.sum() + 1 / (~one).sum()) + .002 * scale
  require(abs(arm.ate - want) <= tol, f"5.1 without noise, {arm.name}: effect", got=arm.ate,
          want=want, tolerance=tol)


def st_paper():
  return st.integers(1, 3).flatmap(lambda m: st.fixed_dictionaries(dict(
      m=st.just(m), z=st.lists(st.integers(1, 3), min_size=m + 1, max_size=m + 1),
      v=st.lists(st.integers(1, 3), min_size=m, max_size=m), cuts=st_cuts(),
      seed=st.integers(0, 2**31))))


def st_cuts():
  return st.lists(st.integers(0, 9), max_size=3)


def fn_examples(case, rec):
  kind = case["kind"]
  ident = data.get_identity_fn()
  slack = 0
  if kind.startswith("front"):
    model, _ = example.frontdoor_scm()
    etas = [(parameters.FrontDoorLinearFiniteZ(1), data.get_remove_coordinates_fn(0))]
    if kind == "front as back":  # U is a back-door set
      etas = [(parameters.AIPWLinearLogistic(1), data.get_remove_coordinates_fn(1))]
  elif kind == "back":
    model, _ = example.back_door_scm()
    etas = [(parameters.AIPWLinearLogistic(1), ident),
            (parameters.AIPWLinearLogistic(1, min_overlap=.02), ident)]
  else:
    rs = np.random.RandomState([case["seed"], 9])
    d = case["d"]
    beta, gamma = rs.normal(size=d) * 2, rs.normal(size=d) * .7
    tau = rs.normal() * 3
    etas = [(parameters.AIPWLinearLogistic(d), ident),
            (parameters.LinearRegressionParameter(d), ident)]
    if kind == "linear":
      model = data.LinearDataGenerator("g", d, beta, tau, gamma=gamma)
    else:
      model = data.LinearDataGenerator("g", d, beta, tau, np.zeros, gamma)
      etas[1:] = [(parameters.LinearParameterBinaryTreatment(d), ident)]
      slack = .003 * (1 + abs(tau) + np.abs(beta).sum())  # of the ridge penalty
  sample = model.generate(N)
  if kind in ("linear", "noise-free"):
    var_tau = 0
    require(model.tau == tau, "linear generator: effect", got=model.tau, want=tau)
  else:
    tau, var_tau = truth(model)
  confounded = abs(naive(sample) - tau)
  for eta, tr in etas:
    for arm in (
        arms.SampleSplittingArm("arm", eta, tr, ci_algorithm=CI[case["alg"]],
                                stable_splits=case["stable"]),
        arms.BootstrapArm("boot", eta, tr, n_bootstraps=2, stable_splits=case["stable"])):
      eta.reset()
      run_arm(arm, sample, parts_of(case))
      what = f"{kind}, {type(arm).__name__}, {type(eta).__name__}"
      if slack:
        require(abs(arm.ate - tau) <= slack, f"{what}: effect without noise", got=arm.ate,
                want=tau, tolerance=slack)
        tol = slack
      else:
        tol = judge(arm, N / 2, tau, var_tau, what, naive=naive(sample))
      rec.nontrivial(confounded > tol or kind == "front")
  rec.label(kind)


def st_examples():
  return st.fixed_dictionaries(dict(
      kind=st.sampled_from(["front", "front as back", "back", "linear", "noise-free"]), cuts=st_cuts(),
      alg=st.sampled_from(["CHI2", "CLT"]), stable=st.booleans(), d=st.integers(1, 4),
      seed=st.integers(0, 2**31)))


SUBS = [Sub("paper", st_paper, fn_paper, 16, seconds=150), Sub("examples", st_examples, fn_examples, 50, seconds=60)]
