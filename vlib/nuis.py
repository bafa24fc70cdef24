"""Data sets, stub predictors and closed forms for the nuisance estimators."""
import numpy as np
from hypothesis import strategies as st
from sklearn.base import BaseEstimator

from vlib import repo
from vlib.core import Violation, arr, rng, tail

data, parameters = repo.load("data", "parameters")

LOG = {}


def st_data(min_n=1, max_n=40, min_t=0, d=None):
  """A data-set description; built by make_data."""
  del d
  return st.fixed_dictionaries(dict(
      n0=tail(st.integers(min_t, max_n // 2), 100, 333),
      n1=tail(st.integers(min_t, max_n // 2), 100, 333),
      kind=st.sampled_from(["normal", "normal", "int", "binary", "const", "collinear"]),
      yscale=st.sampled_from([.1, 1, 1, 10, 100]), tau=st.integers(-3, 3),
      expdt=st.sampled_from(["i", "f", "i32"]), s=st.integers(0, 2**31),
      skew=st.sampled_from(["", "", "", "n0", "n1", "n0n1"])))


def st_dim(most=4):
  """The number of covariates."""
  return tail(st.integers(1, most), 7, 12)


def make_data(spec, d, discrete=False, support=None, skew=False):
  """An ExpData with n1 treated and n0 control units in random order.

  With skew, the groups named in spec["skew"] are eight times larger.
  """
  rs = np.random.RandomState([spec["s"], 11])
  n0, n1 = (spec[g] * (8 if skew and g in spec.get("skew", "") else 1)
            for g in ("n0", "n1"))
  n = n0 + n1
  t = rs.permutation(np.r_[np.zeros(n0), np.ones(n1)])
  kind = spec["kind"]
  if support is not None:
    # Mediator values from a common support, with treatment-dependent skew.
    k = len(support)
    p0, p1 = rs.dirichlet(np.ones(k)), rs.dirichlet(np.ones(k))
    idx = np.array([rs.choice(k, p=p1 if x else p0) for x in t], dtype=int)
    x = np.asarray(support)[idx] if n else np.asarray(support)[:0]
  elif discrete or kind == "int":
    x = rs.randint(-2, 3, size=(n, d)).astype(float)
  elif kind == "binary":
    x = rs.randint(0, 2, size=(n, d)).astype(float)
  elif kind == "const":
    x = np.tile(rs.normal(size=(1, d)), (n, 1))
  elif kind == "collinear":
    x = rs.normal(size=(n, 1)) * (1 + np.arange(d))[None, :]
  else:
    x = rs.normal(size=(n, d)) + .4 * t[:, None]
  y = spec["tau"] * t + x.astype(float).dot(rs.normal(size=x.shape[1])) + rs.normal(size=n)
  y = y * spec["yscale"]
  t = t.astype({"i": int, "f": float, "i32": np.int32}[spec["expdt"]])
  return data.ExpData(x, t, y)


UNITS = [1, 1, 1, 1e-11, 1e-6, 1e6, 1e10]


def in_unit(d, unit):
  """The same units with responses measured in another unit."""
  return data.ExpData(d.cov.copy(), d.exp.copy(), d.rsp * unit)


def copy_data(d):
  return data.ExpData(d.cov.copy(), d.exp.copy(), d.rsp.copy())


def unchanged(d, c):
  return (np.array_equal(d.cov, c.cov) and np.array_equal(d.exp, c.exp) and
          np.array_equal(d.rsp, c.rsp) and len(d) == len(c))


# ----------------------------------------------------------- stub predictors
def mix(x, w):
  """A bounded function of the rows of x, parametrised by w."""
  x = np.asarray(x, dtype=float)
  c = np.sin(np.arange(1, x.shape[1] + 1) * (1.3 + w))
  return np.sin(x.dot(c) * 1.1 + w) + .5 * np.cos(x.dot(c[::-1]) * .7 - w)


class StubResponse(BaseEstimator):
  """predict is a fixed function; fit records its arguments under a key."""

  def __init__(self, key=None, w=0.0, scale=1.0, swap=False):
    self.key = key
    self.w = w
    self.scale = scale
    self.swap = swap

  def fit(self, x, y):
    if self.key is not None:
      LOG.setdefault(self.key, []).append(
          ("response", np.array(x, dtype=float, copy=True), np.array(y, dtype=float, copy=True)))
    return self

  def predict(self, x):
    x = arr(x, "the response predictor's input", ndim=2).copy()
    if self.swap:
      x[:, 0] = 1 - x[:, 0]
    return self.scale * mix(x, self.w)


class StubPropensity(BaseEstimator):

  def __init__(self, key=None, w=0.0, sharp=1.0, flip=False):
    self.key = key
    self.w = w
    self.sharp = sharp
    self.flip = flip

  def fit(self, x, y):
    if self.key is not None:
      LOG.setdefault(self.key, []).append(
          ("propensity", np.array(x, dtype=float, copy=True), np.array(y, dtype=float, copy=True)))
    return self

  def prob(self, x):
    x = arr(x, "the propensity predictor's input", ndim=2)
    p = 1 / (1 + np.exp(-self.sharp * mix(x, self.w + 2)))
    return 1 - p if self.flip else p

  def predict_proba(self, x):
    p = self.prob(x)
    return np.c_[1 - p, p]


class TablePredictor(BaseEstimator):
  """Looks rows up in a dictionary; without one, it is fitted: the means of the rows."""

  def __init__(self, table=None, proba=False):
    self.table = table
    self.proba = proba
    self.learn = table is None

  def fit(self, x, y):
    if self.learn:
      x, at = np.unique(np.asarray(x, float), axis=0, return_inverse=True)
      m = np.bincount(at.ravel(), weights=np.asarray(y, float)) / np.bincount(at.ravel())
      self.table = {tuple(r.tolist()): v for r, v in zip(x, m)}
    return self

  def _get(self, x):
    x = arr(x, "the predictor's input", ndim=2)
    try:
      return np.array([self.table[tuple(r.tolist())] for r in x])
    except KeyError as e:
      raise Violation(f"a predictor was queried for the impossible row {e}") from None

  def predict(self, x):
    return self._get(x)

  def predict_proba(self, x):
    p = self._get(x)
    return np.c_[1 - p, p]


# --------------------------------------------------------------- closed forms
def ridge(x, y, alpha, intercept):
  """(coef, intercept) of the ridge regression."""
  x, y = np.asarray(x, float), np.asarray(y, float)
  if intercept:
    mx, my = x.mean(axis=0), y.mean()
    c = np.linalg.solve((x - mx).T.dot(x - mx) + alpha * np.identity(x.shape[1]),
                        (x - mx).T.dot(y - my))
    return c, my - mx.dot(c)
  c = np.linalg.solve(x.T.dot(x) + alpha * np.identity(x.shape[1]), x.T.dot(y))
  return c, 0.0


def kernel_ridge(x, y, xq, alpha=1.0):
  x, xq = np.asarray(x, float), np.asarray(xq, float)
  g = 1.0 / x.shape[1]
  k = lambda a, b: np.exp(-g * ((a[:, None, :] - b[None, :, :])**2).sum(axis=2))
  dual = np.linalg.solve(k(x, x) + alpha * np.identity(len(x)), np.asarray(y, float))
  return k(xq, x).dot(dual)


def logistic(x, t, c=1.0):
  """L2-penalised logistic regression with free intercept, by damped Newton steps."""
  x, t = np.asarray(x, float), np.asarray(t, float)
  n, d = x.shape
  a = np.c_[x, np.ones(n)]
  pen = np.r_[np.ones(d) / c, 0.0]
  w = np.zeros(d + 1)

  def obj(w):
    e = a.dot(w)
    return np.logaddexp(0, e).sum() - t.dot(e) + .5 * (pen * w * w).sum()

  f = obj(w)
  for _ in range(200):
    e = a.dot(w)
    p = 1 / (1 + np.exp(-e))
    g = a.T.dot(p - t) + pen * w
    h = (a * (p * (1 - p))[:, None]).T.dot(a) + np.diag(pen) + 1e-12 * np.identity(d + 1)
    step = np.linalg.solve(h, g)
    s = 1.0
    while s > 1e-10:
      nf = obj(w - s * step)
      if nf <= f:
        break
      s /= 2
    w, f = w - s * step, nf
    if np.abs(g).max() < 1e-10:
      break
  return w[:-1], w[-1]


def logistic_slack(x, t, w, b, q, grad=1e-4):
  """How far the predictions for q may be off when the solver stops at a gradient of
  the mean loss of at most grad (to first order)."""
  a = np.c_[np.asarray(x, float), np.ones(len(x))]
  p = 1 / (1 + np.exp(-(a[:, :-1].dot(w) + b)))
  h = (a * (p * (1 - p))[:, None]).T.dot(a) + np.diag(np.r_[np.ones(len(w)), 1e-9])
  dw = np.abs(np.linalg.pinv(h)).sum(axis=1) * grad * len(a)
  qa = np.abs(np.c_[np.asarray(q, float), np.ones(len(q))])
  pq = 1 / (1 + np.exp(-(np.asarray(q, float).dot(w) + b)))
  return pq * (1 - pq) * qa.dot(dw)


def aipw(y, t, mu0, mu1, e):
  mux = np.where(t == 1, mu1, mu0)
  return mu1 - mu0 + (y - mux) * (t / e - (1 - t) / (1 - e))


def front_door(fit, ev, ov, ratio):
  """Brute-force front-door scores of ev after fitting on fit."""
  t = np.asarray(fit.exp, float)
  coef, b = ridge(np.c_[t, fit.cov], fit.rsp, 1.0, True)
  mu = lambda x, z: float(np.dot(coef, np.r_[float(x), np.asarray(z, float)]) + b)
  tab = data.TabularCPD(ratio)
  tab.fit(t.astype(int), fit.cov)
  zs = sorted({tuple(z) for z in fit.cov.tolist()})
  dt = fit.cov.dtype

  def pr(z, x):
    return float(tab.predict(np.array([int(x)]), np.array([z], dtype=dt))[0])

  emp = {(z, x): float(np.mean((fit.cov[t == x] == np.array(z, dtype=dt)).all(axis=1)))
         for z in zs for x in (0, 1)}
  if min(emp.values()) >= 1 / (len(zs) * ratio):
    p = emp  # no probability is below the floor
  else:
    p = {(z, x): pr(z, x) for z in zs for x in (0, 1)}
  clip = lambda v: min(max(v, ov), 1 - ov)
  pi = clip(t.mean())
  out = []
  memo = {}
  for i in range(len(ev)):
    x, z, y = int(ev.exp[i]), tuple(ev.cov[i].tolist()), float(ev.rsp[i])
    if (x, z) not in memo:
      p1, p0, px = (clip(p.get((z, q), 0.0)) for q in (1, 0, x))
      a = (p1 - p0) / px
      f1 = sum(mu(x, w) * (p[w, 1] - p[w, 0]) for w in zs)
      f2 = pi * mu(1, z) + (1 - pi) * mu(0, z)
      f3 = sum(p[w, x] * (pi * mu(1, w) + (1 - pi) * mu(0, w)) for w in zs)
      memo[x, z] = (a, f1 + (x / pi - (1 - x) / (1 - pi)) * (f2 - f3), mu(x, z))
    a, rest, m = memo[x, z]
    out.append((y - m) * a + rest)
  return np.array(out)


# ------------------------------------------------------- learning stubs, kinds
class LearnResponse(BaseEstimator):
  """A predictor that depends on all of its (unordered) fitting data."""

  def __init__(self, w=0.0):
    self.w = w

  def fit(self, x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    self.a_ = y.mean()
    self.b_ = (x * y[:, None]).mean(axis=0)
    return self

  def predict(self, x):
    x = arr(x, "the response predictor's input", ndim=2)
    return self.a_ + .3 * x.dot(self.b_) + mix(x, self.w)


class OnlineResponse(LearnResponse):
  """A predictor that keeps learning: every fit adds to the earlier ones."""

  def fit(self, x, y):
    y = np.asarray(y, float)
    old = getattr(self, "seen_", [])
    super().fit(x, y)
    self.seen_ = old + [float(y.sum()) + len(y)]
    self.a_ += sum(self.seen_) % 7.0
    return self


class LearnPropensity(BaseEstimator):

  def __init__(self, w=0.0):
    self.w = w

  def fit(self, x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    self.b_ = (x * (2 * y[:, None] - 1)).mean(axis=0)
    self.a_ = y.mean()
    return self

  def predict_proba(self, x):
    x = arr(x, "the propensity predictor's input", ndim=2)
    p = 1 / (1 + np.exp(-(x.dot(self.b_) + self.a_ - .5 + mix(x, self.w))))
    return np.c_[1 - p, p]


KINDS = ["AIPW", "AIPWLinearLogistic", "AIPWKernelRidgeLogistic",
         "AIPWKernelGradientBoosting", "FrontDoorLinearFiniteZ",
         "LinearParameterBinaryTreatment", "LinearRegressionParameter"]
WARM = ("AIPWLinearLogistic", "AIPWKernelRidgeLogistic")


def st_estimator(kinds=None):
  return st.fixed_dictionaries(dict(
      kind=st.sampled_from(kinds or KINDS), d=st_dim(3),
      units=st.sampled_from([None, 1, 2, 3, 4]), ov=st.sampled_from([None, .01, .2, .4]),
      ratio=st.sampled_from([None, 2, 50]), lam=st.sampled_from([None, .5, 20])))


def make_estimator(e):
  kind, d = e["kind"], e["d"]
  kw = {}
  if e["units"] is not None:
    kw["min_units"] = e["units"]
  if e["ov"] is not None:
    kw["min_overlap"] = e["ov"]
  if kind == "AIPW":
    response = OnlineResponse if e.get("online") else LearnResponse
    return parameters.AIPW(d, response(1.0), LearnPropensity(2.0), **kw)
  if kind == "FrontDoorLinearFiniteZ":
    if e["ratio"] is not None:
      kw["min_ratio_to_uniform"] = e["ratio"]
    return parameters.FrontDoorLinearFiniteZ(d, **kw)
  if kind == "LinearParameterBinaryTreatment":
    return parameters.LinearParameterBinaryTreatment(d)
  if kind == "LinearRegressionParameter":
    return parameters.LinearRegressionParameter(
        d, **({} if e["lam"] is None else dict(l_reg=e["lam"])))
  return getattr(parameters, kind)(d, **kw)


def sufficient(e, n0, n1):
  kind = e["kind"]
  if kind == "LinearRegressionParameter":
    return n0 + n1 >= 1
  if kind == "LinearParameterBinaryTreatment":
    return n0 >= 1 and n1 >= 1
  units = 5 if e["units"] is None else e["units"]
  return n0 >= units and n1 >= units


def boundary_sizes(e, pick):
  """Group sizes around the readiness boundary."""
  kind = e["kind"]
  u = 5 if e["units"] is None else e["units"]
  if kind.startswith("Linear"):
    u = 1
  return {"exact": (u, u), "more": (u + 4, u + 7), "big": (18, 14), "no control": (0, u + 3),
          "no treated": (u + 3, 0), "few control": (u - 1, u + 4),
          "few treated": (u + 4, u - 1), "empty": (0, 0), "one": (0, 1)}[pick]


PICKS = ["exact", "exact", "more", "more", "big", "big", "big", "no control", "no treated", "few control",
         "few treated", "empty", "one"]


def overlap(e):
  return .05 if e["ov"] is None else e["ov"]
