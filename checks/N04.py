"""Linear effect estimators match their closed forms."""
import numpy as np
from hypothesis import strategies as st

from vlib import nuis, repo
from vlib.core import Sub, arr, close, require, rng

data, parameters = repo.load("data", "parameters")
ID = "N04"
RULE = ("two-response: difference of two ridge fits; truth: after set_to_truth on fresh or "
        "fitted parameters; regression: closed form of the score, its mean on the fitting "
        "data and the limit of a small penalty, binary or continuous exposure; non-trivial "
        "= the response varies")


def score(eta, d, what):
  c = nuis.copy_data(d)
  s = arr(eta.calculate_score(d), what, shape=(len(d),))
  require(nuis.unchanged(d, c), "scoring changed the data")
  return s


def fn_two(case, rec):
  d = case["d"]
  fit, ev = nuis.make_data(case["fit"], d), nuis.make_data(case["ev"], d)
  eta = parameters.LinearParameterBinaryTreatment(d)
  for f in case["before"]:
    eta.fit(nuis.make_data(f, d))
  c = nuis.copy_data(fit)
  unit = case["unit"]
  eta.fit(fit if unit == 1 else nuis.in_unit(fit, unit))
  require(nuis.unchanged(fit, c), "fitting changed the data")
  require(eta.has_enough_samples(), "not ready with units in both groups")
  want = 0
  for x, sign in ((1, 1), (0, -1)):
    m = fit.exp == x
    coef, b = nuis.ridge(fit.cov[m], fit.rsp[m], 1.0, True)
    want = want + sign * (ev.cov.dot(coef) + b)
  scale = 1 + np.abs(fit.rsp).max()
  close(score(eta, ev, "score") / unit / scale, want / scale,
        "score: difference of the two ridge regressions", rtol=1e-7, atol=1e-8)
  rec.nontrivial(bool(np.ptp(fit.rsp) > 0))


def st_two():
  return st.fixed_dictionaries(dict(
      d=nuis.st_dim(), fit=nuis.st_data(min_t=1), ev=nuis.st_data(min_t=1),
      before=st.lists(nuis.st_data(max_n=20), max_size=1),
      unit=st.sampled_from(nuis.UNITS), seed=st.just(0)))


def fn_truth(case, rec):
  d, tau = case["d"], case["tau"]
  rs = rng(case)
  gen = data.LinearDataGenerator("g", d, rs.normal(size=d) * 3, tau,
                                 gamma=rs.normal(size=d))
  eta = parameters.LinearParameterBinaryTreatment(d)
  for f in case["before"]:
    eta.fit(nuis.make_data(f, d))
  if case["reset"]:
    eta.reset()
  eta.set_to_truth(gen)
  require(eta.has_enough_samples(), "not ready after set_to_truth")
  ev = gen.generate(10) if case["own"] else nuis.make_data(case["ev"], d)
  close(score(eta, ev, "score"), np.full(len(ev), float(tau)),
        "score under the true parameters", rtol=1e-9, atol=1e-8)
  rec.label("fitted before" if case["before"] else "never fitted")
  rec.nontrivial(tau != 0)


def st_truth():
  return st.fixed_dictionaries(dict(
      d=nuis.st_dim(), tau=st.sampled_from([0, 1, -2.5, 10]), reset=st.booleans(),
      before=st.lists(nuis.st_data(min_t=1, max_n=20), max_size=2), own=st.booleans(),
      ev=nuis.st_data(min_t=1), seed=st.integers(0, 2**31)))


def continuous(dat, case):
  if not case["cont"]:
    return dat
  rs = rng(case, 3)
  return data.ExpData(dat.cov, rs.normal(size=len(dat)) * 2 + dat.exp +
                      dat.cov[:, :1].sum(axis=1), dat.rsp)


def fn_regression(case, rec):
  d, lam = case["d"], case["lam"]
  fit = continuous(nuis.make_data(case["fit"], d), case)
  ev = continuous(nuis.make_data(case["ev"], d), case)
  if lam is None:
    eta, lam = parameters.LinearRegressionParameter(d), .1
  else:
    eta = parameters.LinearRegressionParameter(d, l_reg=lam)
  for f in case["before"]:
    eta.fit(continuous(nuis.make_data(f, d), case))
  c = nuis.copy_data(fit)
  unit = case["unit"]
  eta.fit(fit if unit == 1 else nuis.in_unit(fit, unit))
  require(nuis.unchanged(fit, c), "fitting changed the data")
  require(eta.has_enough_samples(), "not ready after a fit")
  dm = np.c_[fit.exp, fit.cov].astype(float)
  g = dm.T.dot(dm) + lam * np.identity(d + 1)
  row = len(fit) * np.linalg.solve(g, np.identity(d + 1))[0]
  dv = np.c_[ev.exp, ev.cov].astype(float)
  want = dv.dot(row) * ev.rsp
  scale = 1 + (np.abs(row).sum() * np.abs(dv).max() * np.abs(ev.rsp).max())
  close(score(eta, nuis.in_unit(ev, unit), "score") / unit / scale, want / scale,
        "score: closed form", rtol=1e-6,
        atol=1e-9)
  s = score(eta, nuis.in_unit(fit, unit), "score on the fitting data") / unit
  beta = np.linalg.solve(g, dm.T.dot(fit.rsp))[0]
  scale = 1 + np.abs(s).max()
  close(s.mean() / scale, beta / scale,
        "mean score on the fitting data: ridge coefficient of the exposure", rtol=1e-6,
        atol=1e-9)
  if d == 0:
    rec.label("no covariates")
  rec.label("continuous exposure" if case["cont"] else "binary exposure")
  rec.nontrivial(bool(np.ptp(fit.rsp) > 0))


def st_regression():
  return st.fixed_dictionaries(dict(
      d=st.one_of(nuis.st_dim(), nuis.st_dim(), st.just(0)), lam=st.sampled_from([None, None, .01, 1, 5, 100]),
      fit=nuis.st_data(min_t=1), ev=nuis.st_data(min_t=1), cont=st.booleans(),
      unit=st.sampled_from(nuis.UNITS), before=st.lists(nuis.st_data(min_t=1, max_n=20), max_size=1),
      seed=st.integers(0, 2**31)))


SUBS = [
    Sub("two_response", st_two, fn_two, 1000),
    Sub("truth", st_truth, fn_truth, 800),
    Sub("regression", st_regression, fn_regression, 2000),
]
