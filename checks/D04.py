"""The linear data generator obeys its declared model."""
import numpy as np
from hypothesis import strategies as st

from vlib import repo, stats
from vlib.core import Sub, arr, close, raises, require, rng, tail

data = repo.load("data")
ID = "D04"
RULE = ("exact: dimension, size, parameters and a recording noise model; the response "
        "residual must be a draw of that model; non-trivial = at least 2 units and a "
        "non-zero tau and beta. law: samples of 3000 to 40000 units against the declared laws; "
        "non-trivial = always. reject: wrongly shaped gamma or noise; non-trivial = "
        "always. base: the generic generator")


def shape_check(o, n, d, what="generated data"):
  require(isinstance(o, data.ExpData), f"{what}: not an ExpData")
  require(len(o) == n and o.n_units == n, f"{what}: {len(o)} units instead of {n}")
  require(o.n_features == d, f"{what}: {o.n_features} features instead of {d}")
  x = arr(o.cov, what + ".cov", shape=(n, d))
  t = arr(o.exp, what + ".exp", shape=(n,))
  y = arr(o.rsp, what + ".rsp", shape=(n,))
  require(np.all((t == 0) | (t == 1)), f"{what}: treatment not binary", got=t[:10])
  return x, t, y


def params(case):
  rs = rng(case)
  d = case["d"]
  beta = np.round(rs.normal(size=d) * case["bscale"], 3)
  gamma = None if case["gscale"] is None else rs.normal(size=d) * case["gscale"]
  return rs, beta, case["tau"], gamma


class Noise:

  def __init__(self, kind, rs):
    self.kind, self.rs, self.draws, self.sizes = kind, rs, [], []

  def __call__(self, n):
    k = self.kind
    if k == "zero":
      v = np.zeros(n)
    elif k == "const":
      v = np.full(n, 3.0 + len(self.draws))
    elif k == "uniform":
      v = self.rs.uniform(-1, 5, size=n)
    else:
      v = self.rs.standard_t(1, size=n)
    self.draws.append(v.copy())
    self.sizes.append(n)
    return v


def fn_exact(case, rec):
  rs, beta, tau, gamma = params(case)
  d = case["d"]
  noise = Noise(case["noise"], rs)
  b0, g0 = beta.copy(), None if gamma is None else gamma.copy()
  g = data.LinearDataGenerator("g", d, beta, tau, noise, gamma)
  close(g.beta, beta, "beta")
  close(g.tau, tau, "tau")
  close(g.gamma, np.zeros(d) if gamma is None else gamma, "gamma")
  prev = None
  for n in case["sizes"]:
    noise.draws.clear()
    o = g.generate(n)
    x, t, y = shape_check(o, n, d)
    res = y - x.dot(beta) - tau * t
    tol = 1e-9 * (1 + np.abs(y) + np.abs(x).dot(np.abs(beta)) + abs(tau))
    ok = any(len(v) == n and np.all(np.abs(res - v) <= tol) for v in noise.draws)
    require(ok, "the response minus X beta and tau T is not a draw of the noise model",
            residual=res[:5], draws=[v[:5] for v in noise.draws])
    p = 1 / (1 + np.exp(-x.dot(np.zeros(d) if gamma is None else gamma)))
    stats.bernoulli(t, p, "treatment")
    if prev is not None and prev.shape == x.shape and x.size:
      require(not np.array_equal(prev, x), "two calls returned the same covariates")
    prev = x
  require(np.array_equal(beta, b0) and (gamma is None or np.array_equal(gamma, g0)),
          "parameters were modified")
  rec.label("gamma" if gamma is not None else "no gamma", case["noise"])
  rec.nontrivial(max(case["sizes"]) >= 2 and tau != 0 and bool(np.any(beta != 0)))


def st_exact():
  return st.fixed_dictionaries(dict(
      d=tail(st.integers(1, 6), 12, 40), sizes=st.lists(tail(st.integers(0, 60), 1001, 20000), min_size=1, max_size=4),
      tau=st.sampled_from([0, 1, -2.5, 10, 1000.0]) | st.floats(-50, 50),
      bscale=st.sampled_from([0, 1, 10, 100]),
      gscale=st.sampled_from([None, 0, 1, 5, 1000]),
      noise=st.sampled_from(["zero", "const", "uniform", "cauchy"]),
      seed=st.integers(0, 2**32 - 1)))


def fn_law(case, rec):
  rs, beta, tau, gamma = params(case)
  del rs
  d, n = case["d"], case["n"]
  if case["noise"] == "default":
    g = data.LinearDataGenerator("g", d, beta, tau, gamma=gamma)
  else:
    g = data.LinearDataGenerator("g", d, beta, tau, np.random.randn, gamma)
  x, t, y = shape_check(g.generate(n), n, d)
  stats.multinormal(x, "covariates", np.zeros(d), np.identity(d))
  eta = x.dot(np.zeros(d) if gamma is None else gamma)
  p = 1 / (1 + np.exp(-eta))
  stats.bernoulli(t, p, "treatment", weights=(np.sign(eta), np.clip(eta, -3, 3),
                                              x[:, 0], np.abs(eta) < 1))
  res = y - x.dot(beta) - tau * t
  stats.normal(res, "noise")
  for j in range(d):
    stats.independent(res, x[:, j], "noise and covariate")
    stats.independent(x[1:, j], x[:-1, j], "consecutive units")
  stats.normal(res[t == 1], "noise of treated units")
  x2, t2, y2 = shape_check(g.generate(n), n, d)
  del t2, y2
  stats.independent(x2[:, 0], x[:, 0], "consecutive calls")
  stats.independent(t - p, np.arange(n), "treatment over units")
  stats.white(t - p, "treatment", p * (1 - p))
  stats.white(res, "noise")
  for j in range(d):
    stats.white(x[:, j], "covariate")
  rec.nontrivial()


def st_law():
  return st.fixed_dictionaries(dict(
      d=st.integers(1, 4), n=tail(st.just(3000), 9000, 40000), tau=st.sampled_from([0, 1, -3.0]),
      bscale=st.sampled_from([0, 1, 5]),
      gscale=st.sampled_from([None, 0, .3, 1, 4]),
      noise=st.sampled_from(["default", "randn"]), seed=st.integers(0, 2**32 - 1)))


def fn_reject(case, rec):
  d, n = case["d"], case["n"]
  if case["kind"] == "gamma":
    shape = tuple(case["shape"])
    if shape == (d,):
      return
    raises(ValueError, lambda: data.LinearDataGenerator(
        "g", d, np.zeros(d), 1.0, gamma=np.zeros(shape)),
        f"gamma of shape {shape} for {d} features")
  else:
    m = case["m"]
    if m == n:
      return
    g = data.LinearDataGenerator("g", d, np.ones(d), 1.0, lambda k: np.zeros(m))
    raises(ValueError, lambda: g.generate(n), f"a noise model returning {m} for {n}")
  rec.label(case["kind"])
  rec.nontrivial()


def st_reject():
  return st.fixed_dictionaries(dict(
      d=st.integers(1, 5), n=st.integers(0, 9), m=st.integers(0, 9),
      kind=st.sampled_from(["gamma", "noise"]),
      shape=st.lists(st.integers(1, 5), min_size=1, max_size=2),
      seed=st.just(0)))


def fn_base(case, rec):
  g = data.DataGenerator("base")
  for n in case["sizes"]:
    o = g.generate(n)
    require(isinstance(o, data.ExpData), "not an ExpData")
    cov = arr(o.cov, "cov")
    require(len(cov) == n and cov.ndim == 2 and len(o) == n and o.n_units == n and
            o.n_features == cov.shape[1], f"{n} units requested, got {len(o)}")
    for f in ("exp", "rsp"):
      v = arr(getattr(o, f), f, shape=(n,))
      require(np.all(np.isfinite(v)), f"{f} not finite")
    t = arr(o.exp, "exp")
    require(np.all((t == 0) | (t == 1)), "treatment not binary")
    o2 = g.generate(n)
    o2.append(o)
    require(len(o2) == 2 * n, "generated data cannot be appended")
  rec.nontrivial(max(case["sizes"]) > 1)


def st_base():
  return st.fixed_dictionaries(dict(
      sizes=st.lists(tail(st.integers(0, 30), 1000, 70000), min_size=1, max_size=3), seed=st.just(0)))


SUBS = [
    Sub("exact", st_exact, fn_exact, 1500),
    Sub("law", st_law, fn_law, 160),
    Sub("reject", st_reject, fn_reject, 400),
    Sub("base", st_base, fn_base, 60),
]
