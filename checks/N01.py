"""Back-door scores equal the augmented inverse-propensity formula."""
import numpy as np
import sklearn
from hypothesis import strategies as st
from sklearn.base import BaseEstimator

from vlib import nuis, repo
from vlib.core import Sub, arr, close, raises, require, rng, tail

data, parameters = repo.load("data", "parameters")
ID = "N01"
RULE = ("stub: generated fitting and evaluation data with stub predictors (arbitrary "
        "functions, propensities up to 1e-9 from 0 and 1) and overlap limits; non-trivial "
        "= some propensity is clipped and some is not. bundled: the three bundled "
        "variants against closed forms (ridge, RBF kernel ridge, Newton logistic "
        "regression); non-trivial = at least one covariate varies. truth: set_to_truth on "
        "fresh and fitted parameters; non-trivial = always. refused: impossible "
        "treatments without an overlap limit, and other generators; non-trivial = rejected")


def rows(x, y):
  a = np.c_[np.asarray(x, float), np.asarray(y, float)]
  return a[np.lexsort(a.T[::-1])]


def score(eta, d, what):
  c = nuis.copy_data(d)
  s = arr(eta.calculate_score(d), what, shape=(len(d),))
  require(nuis.unchanged(d, c), "scoring changed the data")
  return s


def fn_stub(case, rec):
  d, f = case["d"], case["fit"]
  fit = nuis.make_data(dict(f, **{g: min(f[g] * case["times"], 2600) for g in ("n0", "n1")}), d)
  ev = nuis.make_data(case["ev"], d)
  key = "N01"
  nuis.LOG.pop(key, None)
  w, ov = case["w"], case["ov"]
  settings = {} if ov is None else dict(min_overlap=ov)
  ov = .05 if ov is None else ov
  unit = case["unit"]
  fit, ev = nuis.in_unit(fit, unit), nuis.in_unit(ev, unit)
  resp = nuis.StubResponse(key, w, case["rscale"] * unit)
  prop = nuis.StubPropensity(key, w, case["sharp"])
  eta = parameters.AIPW(d, resp, prop, min_units=case["units"], **settings)
  c = nuis.copy_data(fit)
  eta.fit(fit)
  require(nuis.unchanged(fit, c), "fitting changed the data")
  log = nuis.LOG.get(key, [])
  r = [l for l in log if l[0] == "response"]
  p = [l for l in log if l[0] == "propensity"]
  require(r and p, "a predictor was not fitted", log=[l[0] for l in log])
  close(rows(r[-1][1], r[-1][2] / unit), rows(np.c_[fit.exp, fit.cov], fit.rsp / unit),
        "data the response predictor was fitted on (exposure, covariates -> response)")
  close(rows(p[-1][1], p[-1][2]), rows(fit.cov, fit.exp),
        "data the propensity predictor was fitted on (covariates -> exposure)")
  got = score(eta, ev, "score")
  n = len(ev)
  x = ev.exp.astype(float)
  mu0 = resp.predict(np.c_[np.zeros(n), ev.cov])
  mu1 = resp.predict(np.c_[np.ones(n), ev.cov])
  raw = prop.prob(ev.cov)
  e = np.clip(raw, ov, 1 - ov)
  want = nuis.aipw(ev.rsp, x, mu0, mu1, e)
  close(got / unit, want / unit, "score", rtol=1e-9, atol=1e-9, overlap=ov, unit=unit)
  clipped = (raw < ov) | (raw > 1 - ov)
  rec.label("clipped" if clipped.any() else "unclipped")
  rec.nontrivial(n > 0 and clipped.any() and not clipped.all())


def st_stub():
  return st.fixed_dictionaries(dict(
      d=nuis.st_dim(), fit=nuis.st_data(min_t=5), ev=nuis.st_data(),
      times=tail(st.just(1), 200, every=32), units=st.integers(1, 5), w=st.integers(0, 50).map(lambda v: v / 7),
      rscale=st.sampled_from([1, .01, 100]), unit=st.sampled_from(nuis.UNITS), sharp=st.sampled_from([.3, 3, 8, 20]),
      ov=st.sampled_from([None, .001, .05, .1, .25, .4, .5]), seed=st.just(0)))


def fn_bundled(case, rec):
  d, ov = case["d"], case["ov"]
  fit, ev = nuis.make_data(case["fit"], d), nuis.make_data(case["ev"], d)
  name = case["cls"]
  cls = getattr(parameters, name)
  if ov is None:  # the default settings; there are at least five units per group
    ov, eta = .05, cls(d)
  else:
    eta = cls(d, min_units=case["units"], min_overlap=ov) if case["kw"] else cls(
        d, case["units"], ov)
  unit = case["unit"]
  eta.fit(nuis.in_unit(fit, unit))
  got = score(eta, nuis.in_unit(ev, unit), name + " score") / unit
  n = len(ev)
  x = ev.exp.astype(float)
  tr = np.c_[fit.exp, fit.cov]
  q0, q1 = np.c_[np.zeros(n), ev.cov], np.c_[np.ones(n), ev.cov]
  if name == "AIPWLinearLogistic":
    coef, _ = nuis.ridge(tr, fit.rsp, 1.0, False)
    mu0, mu1 = q0.dot(coef), q1.dot(coef)
    gc, gi = eta.get_response_parameters()
    close(gc / unit, coef, "ridge coefficients", rtol=1e-6, atol=1e-8)
    close(gi / unit, 0.0, "ridge intercept")
  else:
    mu0, mu1 = (nuis.kernel_ridge(tr, fit.rsp, q) for q in (q0, q1))
  scale = 1 + np.abs(ev.rsp).max() + np.abs(fit.rsp).max()
  if name == "AIPWKernelGradientBoosting":
    m = sklearn.clone(eta.propensity)
    m.fit(fit.cov, fit.exp)
    e = np.clip(m.predict_proba(ev.cov)[:, 1], ov, 1 - ov)
    close(got / scale, nuis.aipw(ev.rsp, x, mu0, mu1, e) / scale, name + " score",
          rtol=1e-6, atol=1e-7)
  else:
    w, b = nuis.logistic(fit.cov, fit.exp)
    p = 1 / (1 + np.exp(-(ev.cov.dot(w) + b)))
    # The solver stops at a tolerance: the score is monotone in the propensity.
    tol = np.maximum(3e-3, 1.5 * nuis.logistic_slack(fit.cov, fit.exp, w, b, ev.cov))
    if (tol > 3e-3).any():
      rec.label("solver tolerance matters")
    lo = nuis.aipw(ev.rsp, x, mu0, mu1, np.clip(np.clip(p - tol, 1e-9, 1), ov, 1 - ov))
    hi = nuis.aipw(ev.rsp, x, mu0, mu1, np.clip(np.clip(p + tol, 0, 1 - 1e-9), ov, 1 - ov))
    a, b2 = np.minimum(lo, hi) - 1e-7 * scale / ov, np.maximum(lo, hi) + 1e-7 * scale / ov
    bad = ~((got >= a) & (got <= b2))
    require(not bad.any(), f"{name}: scores differ from the formula",
            got=got[bad][:4], low=a[bad][:4], high=b2[bad][:4])
  rec.label(name, case["fit"]["kind"])
  rec.nontrivial(bool(np.ptp(fit.cov, axis=0).max() > 0))


def st_bundled():
  return st.fixed_dictionaries(dict(
      d=nuis.st_dim(), fit=nuis.st_data(min_t=5), ev=nuis.st_data(min_t=1),
      units=st.integers(1, 5), kw=st.booleans(), unit=st.sampled_from(nuis.UNITS),
      cls=st.sampled_from(["AIPWLinearLogistic", "AIPWLinearLogistic",
                           "AIPWKernelRidgeLogistic", "AIPWKernelGradientBoosting"]),
      ov=st.sampled_from([None, .01, .05, .25, .5]), seed=st.just(0)))


def fn_truth(case, rec):
  d, ov = case["d"], case["ov"]
  rs = rng(case)
  beta = rs.normal(size=d) * case["bs"]
  gamma = None if case["gs"] is None else rs.normal(size=d) * case["gs"]
  tau = case["tau"]
  gen = data.LinearDataGenerator("g", d, beta, tau, gamma=gamma)
  eta = parameters.AIPWLinearLogistic(d, min_units=1, min_overlap=ov)
  for f in case["fits"]:
    eta.fit(nuis.make_data(f, d))
  if case["reset"]:
    eta.reset()
  eta.set_to_truth(gen)
  ev = nuis.make_data(case["ev"], d) if case["own"] else gen.generate(15)
  got = score(eta, ev, "score")
  g = np.zeros(d) if gamma is None else gamma
  e = np.clip(1 / (1 + np.exp(-ev.cov.dot(g))), ov, 1 - ov)
  mu0 = ev.cov.dot(beta)
  want = nuis.aipw(ev.rsp, ev.exp.astype(float), mu0, mu0 + tau, e)
  close(got, want, "score under the true parameters", rtol=1e-8, atol=1e-8)
  require(eta.has_enough_samples(), "not ready after set_to_truth")
  rec.label("fitted before" if case["fits"] else "never fitted")
  rec.nontrivial()


def st_truth():
  return st.fixed_dictionaries(dict(
      d=nuis.st_dim(), ov=st.sampled_from([.01, .05, .25]),
      bs=st.sampled_from([0, 1, 5]), gs=st.sampled_from([None, 0, .5, 3]),
      tau=st.sampled_from([0, 1, -2.5, 10]), reset=st.booleans(), own=st.booleans(),
      fits=st.lists(nuis.st_data(min_t=2), max_size=2), ev=nuis.st_data(min_t=1),
      seed=st.integers(0, 2**32 - 1)))


def fn_refused(case, rec):
  """Without an overlap limit, impossible treatments cannot be scored."""
  d, q = case["d"], case["q"]
  ev = nuis.make_data(case["ev"], d)
  n = len(ev)
  eta = parameters.AIPW(d, nuis.StubResponse(None, case["w"]), Fixed(), min_units=1,
                        min_overlap=0)
  eta.fit(nuis.make_data(case["fit"], d))
  probs = np.full(n, .5)
  probs[case["at"] % n] = q
  eta.propensity.probs = probs
  if q in (0, 1):
    raises(ValueError, lambda: eta.calculate_score(ev), f"a propensity of {q}")
  else:
    x = ev.exp.astype(float)
    mu = [nuis.StubResponse(None, case["w"]).predict(np.c_[np.full(n, v), ev.cov])
          for v in (0, 1)]
    want = nuis.aipw(ev.rsp, x, *mu, probs)
    got = score(eta, ev, "score")
    close(got / (1 + np.abs(want)), want / (1 + np.abs(want)), "score", rtol=1e-6, atol=1e-9)
  raises(ValueError, lambda: eta.set_to_truth(data.DataGenerator("other")),
         "set to the truth of a generator that is not linear")
  rec.nontrivial(q in (0, 1))


class Fixed(BaseEstimator):
  """Gives the probabilities it was told."""

  def __init__(self, probs=None):
    self.probs = probs

  def fit(self, x, y):
    return self

  def predict_proba(self, x):
    return np.c_[1 - self.probs, self.probs]


def st_refused():
  return st.fixed_dictionaries(dict(
      d=nuis.st_dim(), fit=nuis.st_data(min_t=1), ev=nuis.st_data(min_t=1),
      q=st.sampled_from([0, 1, 1e-9, 1 - 1e-9, .3]), at=st.integers(0, 99),
      w=st.integers(0, 50).map(lambda v: v / 7), seed=st.just(0)))


SUBS = [
    Sub("stub", st_stub, fn_stub, 1000),
    Sub("bundled", st_bundled, fn_bundled, 700),
    Sub("truth", st_truth, fn_truth, 500),
    Sub("refused", st_refused, fn_refused, 300),
]
