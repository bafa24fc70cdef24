"""Conditional-distribution building blocks draw what they document."""
import numpy as np
from hypothesis import strategies as st

from vlib import repo, stats
from vlib.core import Sub, Violation, arr, close, raises, require, rng, tail

data, scm = repo.load("data", "scm")
ID = "S03"
RULE = ("exact: every block with zero noise on generated parents (scalar and vector, "
        "integer, float and boolean), parameters and output dimensions; non-trivial = at "
        "least two units and one parent. noise, noise_large: samples of 1500 and of up to 70000 units of the noise against "
        "its declared mean and covariance; non-trivial = always. logistic: certain and "
        "random means; select: conditioning with recording branches, non-trivial = at "
        "least two branches used. reject: incompatible shapes and lengths")

FUNS = {
    "id": lambda v: v,
    "square": lambda v: v * v,
    "sin": np.sin,
    "affine": lambda v: 2 * v - 3,
    "abs": np.abs,
}


def make_parents(case, rs):
  n = case["n"]
  out = []
  for p in case["parents"]:
    shape = (n,) if p["dim"] == 0 else (n, p["dim"])
    if p["dt"] == "i":
      a = rs.randint(-4, 5, size=shape)
    elif p["dt"] == "b":
      a = rs.randint(0, 2, size=shape).astype(bool)
    else:
      a = rs.normal(size=shape) * 2
    out.append(a)
  return out


def make_betas(case, parents, rs, m):
  betas = []
  for p in parents:
    if p.ndim == 1:
      b = np.round(rs.normal() * 2, 2)
      betas.append(b if case["b0"] == "np" else float(b))
    elif m == 0:
      betas.append(np.round(rs.normal(size=p.shape[1]) * 2, 2))
    else:
      betas.append(np.round(rs.normal(size=(p.shape[1], m)) * 2, 2))
  return betas


def lin(p, b):
  """p.dot(b) by hand."""
  p = np.asarray(p, dtype=float)
  if p.ndim == 1:
    return p * b
  b = np.asarray(b, dtype=float)
  return np.einsum("ij,j...->i...", p, b)


def noise_params(case, rs, m, zero):
  """(mean, cov, flat mean, cov matrix) for output dimension m (0: scalar)."""
  if m == 0:
    mean = float(np.round(rs.normal() * 3, 2)) if case["mean"] != "0" else 0
    var = 0.0 if zero else case["var"]
    return mean, var, np.array([mean]), np.array([[var]])
  mean = np.round(rs.normal(size=m) * 3, 2)
  if case["mean"] == "0":
    mean = mean * 0
  a = rs.normal(size=(m, m))
  cov = a.dot(a.T) * case["var"] + .1 * case["var"] * np.identity(m)
  if zero:
    cov = np.zeros((m, m))
  return mean, cov, mean, cov


def call(case, rs, zero):
  """Runs the block; returns (result, noise-free expectation, mean, cov, m)."""
  block, m = case["block"], case["m"]
  parents = make_parents(case, rs)
  n = case["n"]
  if m and block in ("normal", "transformed"):
    # Vector output needs table-shaped parents.
    parents = [p.reshape(n, -1) for p in parents]
  mean, cov, fm, fc = noise_params(case, rs, m, zero)
  given_mean = mean
  if m and case["mean"] == "col" and block in ("add", "equation"):
    given_mean = np.asarray(mean).reshape(-1, 1)
  keep = [p.copy() for p in parents]
  plist = list(parents)
  if block == "normal":
    betas = make_betas(case, parents, rs, m)
    kb = [np.copy(b) for b in betas]
    got = scm.normal_cpd(plist, betas, mean, cov)
    want = sum(lin(p, b) for p, b in zip(parents, betas))
    require(len(betas) == len(kb) and all(np.array_equal(a, b) for a, b in zip(betas, kb)),
            "normal_cpd changed its parameters")
  elif block == "transformed":
    betas = make_betas(case, parents, rs, m)
    fns = [FUNS[case["fns"][i % len(case["fns"])]] for i in range(len(parents))]
    got = scm.transformed_normal_cpd(plist, betas, fns, mean, cov)
    want = sum(f(lin(p, b)) for f, p, b in zip(fns, parents, betas))
  elif block == "add":
    if m == 0:
      x = parents[0] if parents[0].ndim == 1 else parents[0][:, :1]
      if x.dtype == bool:
        x = x.astype(int)
      if case["mean"] == "col":
        given_mean = np.array([mean])
    else:
      if m == 1:
        x = rs.normal(size=(n, 1))
        got = scm.add_gaussian_noise(x, float(mean[0]), float(cov[0, 0]))
        g = arr(got, "add_gaussian_noise", shape=(n,))
        return g, x[:, 0], fm, fc, 0
      x = rs.normal(size=(n, m)) if case["parents"][0]["dt"] != "i" else rs.randint(
          -3, 4, size=(n, m))
    kx = x.copy()
    got = scm.add_gaussian_noise(x, given_mean, cov)
    require(np.array_equal(x, kx), "add_gaussian_noise changed its input")
    want = x.astype(float).reshape(n) if m == 0 else x.astype(float)
  else:
    w = np.round(rs.normal(size=(sum(1 if p.ndim == 1 else p.shape[1] for p in parents),
                                 max(m, 1))), 2)
    seen = []

    def f(x):
      seen.append(np.array(x, copy=True))
      v = np.asarray(x, float).dot(w)
      v = v + .5 * v * v
      return v[:, 0] if m == 0 and case["b0"] == "np" else v

    got = scm.structural_equation_with_noise(plist, f, given_mean, cov)
    stacked = np.concatenate([p.reshape(n, -1).astype(float) for p in parents], axis=1)
    require(len(seen) >= 1 and all(np.array_equal(s, stacked) for s in seen),
            "the structural equation was not evaluated on the stacked parents")
    v = stacked.dot(w)
    want = v + .5 * v * v
    if m == 0:
      want = want[:, 0]
  require(len(plist) == len(parents) and all(a is b for a, b in zip(plist, parents)) and
          all(np.array_equal(a, b) for a, b in zip(parents, keep)),
          f"{block}: the parents were modified")
  got = arr(got, f"{block} output", shape=(n,) if m == 0 else (n, m))
  return got, want, fm, fc, m


def fn_exact(case, rec):
  rs = rng(case)
  got, want, fm, _, m = call(case, rs, zero=True)
  want = want + (fm[0] if m == 0 else fm)
  close(got, want, f"{case['block']} without noise", rtol=1e-9, atol=1e-7)
  rec.label(case["block"], "vector" if m else "scalar",
            "int first parent" if case["parents"][0]["dt"] == "i" else "")
  rec.nontrivial(case["n"] >= 2)


def common(n):
  parent = st.fixed_dictionaries(dict(dim=tail(st.integers(0, 3), 6, 11),
                                      dt=st.sampled_from(["f", "i", "b"])))
  return dict(
      block=st.sampled_from(["normal", "transformed", "add", "equation"]),
      n=n, parents=st.lists(parent, min_size=1, max_size=6), m=tail(st.integers(0, 3), 5, 10),
      mean=st.sampled_from(["flat", "col", "0"]), var=st.sampled_from([.01, .25, 1, 9]),
      fns=st.lists(st.sampled_from(sorted(FUNS)), min_size=1, max_size=6),
      b0=st.sampled_from(["np", "float"]), seed=st.integers(0, 2**32 - 1))


def st_exact():
  return st.fixed_dictionaries(common(tail(st.integers(1, 12), 300, 3000)))


def fn_noise(case, rec):
  rs = rng(case)
  got, want, fm, fc, m = call(case, rs, zero=False)
  res = got - want
  if m == 0:
    stats.normal(res, f"{case['block']} noise", fm[0], fc[0, 0])
  else:
    stats.multinormal(res, f"{case['block']} noise", fm, fc)
  r0 = res if m == 0 else res[:, 0]
  stats.independent(r0[1:], r0[:-1], f"{case['block']} noise of consecutive units")
  w0 = want if m == 0 else want[:, 0]
  stats.independent(r0, w0, f"{case['block']} noise and mean")
  stats.white((r0 - fm[0]) / np.sqrt(fc[0, 0]), f"{case['block']} noise")
  # Continuous noise: no two units have (nearly) the same.
  near = int((np.diff(np.sort(r0)) < 1e-10 * np.sqrt(fc[0, 0])).sum())
  require(near <= 5, f"{case['block']}: several units have the same noise", equal=near,
          units=len(r0))
  rec.label(case["block"], "vector" if m else "scalar", f"{case['n']} units")
  rec.nontrivial()


def st_noise():
  return st.fixed_dictionaries(common(st.just(1500)))


def st_noise_large():
  return st.fixed_dictionaries(common(st.sampled_from([2500, 5000, 12000, 30000, 70000])))


# ---------------------------------------------------------------- Bernoulli
def fn_logistic(case, rec):
  rs = rng(case)
  parents = make_parents(case, rs)
  n = case["n"]
  betas = make_betas(case, parents, rs, 0)
  betas = [np.asarray(b) * case["scale"] for b in betas]
  keep = [p.copy() for p in parents]
  plist = list(parents)
  eta = sum(lin(p, b) for p, b in zip(parents, betas))
  if case["linear"]:
    got = scm.logistic_linear_bernoulli_cpd(plist, betas)
  else:
    eta = eta + .3 * eta * np.cos(eta)
    seen = []

    def f(ps):
      seen.append(len(ps) == len(keep) and all(
          np.array_equal(a, b) for a, b in zip(ps, keep)))
      return eta

    got = scm.logistic_bernoulli_cpd(plist, f)
    require(seen and all(seen), "the function was not evaluated on the parents")
  require(len(plist) == len(parents) and all(
      np.array_equal(a, b) for a, b in zip(plist, keep)), "the parents were modified")
  got = arr(got, "Bernoulli output", shape=(n,))
  p = 1 / (1 + np.exp(-np.clip(eta, -700, 700)))
  stats.bernoulli(got, p, "logistic Bernoulli", weights=(
      np.sign(eta), np.clip(eta, -3, 3), np.abs(eta) < 1))
  if n >= 100:
    stats.independent((got - p)[1:], (got - p)[:-1], "consecutive Bernoulli units")
    stats.white(got - p, "Bernoulli units", p * (1 - p))
  rec.label("linear" if case["linear"] else "general",
            "certain" if case["scale"] > 100 else "random")
  rec.nontrivial(n >= 2)


def st_logistic():
  c = common(tail(st.sampled_from([1, 5, 30, 1500]), 6000, 30000))
  c.update(linear=st.booleans(), scale=st.sampled_from([0, .05, .3, 1, 1000]))
  return st.fixed_dictionaries(c)


# ---------------------------------------------------------------- selection
def fn_select(case, rec):
  rs = rng(case)
  parents = make_parents(case, rs)
  n, k = case["n"], case["k"]
  idx = case["idx"] % (len(parents) + 1)
  which = rs.randint(0, k, size=n)
  which = which.astype(float) if case["cfloat"] else which
  parents.insert(idx, which)
  others = [p for i, p in enumerate(parents) if i != idx]
  keep = [p.copy() for p in parents]
  calls = []

  def branch(b):

    def f(m, ps):
      calls.append((b, m, [np.array(p, copy=True) for p in ps]))
      base = 100.0 * (b + 1) + sum(
          (j + 1) * float(np.sum(np.asarray(p, float) * (1 + np.arange(np.size(p)))))
          for j, p in enumerate(ps))
      if case["mutate"] and isinstance(ps, list) and ps:
        ps.pop()
      return np.full(m, base) if case["m"] == 0 else np.full(
          (m, case["m"]), base) + np.arange(case["m"])

    return f

  plist = list(parents)
  got = scm.categorical_conditioning(plist, idx, [branch(b) for b in range(k)])
  shape = (n,) if case["m"] == 0 else (n, case["m"])
  got = arr(got, "selected output", shape=shape)
  require(len(plist) == len(parents) and all(a is b for a, b in zip(plist, parents)),
          "categorical_conditioning changed the caller's parents list")
  require(all(np.array_equal(a, b) for a, b in zip(parents, keep)),
          "categorical_conditioning changed the parents")
  for i in range(n):
    ps = [p[i] for p in others]
    base = 100.0 * (int(which[i]) + 1) + sum(
        (j + 1) * float(np.sum(np.asarray(p, float) * (1 + np.arange(np.size(p)))))
        for j, p in enumerate(ps))
    want = base if case["m"] == 0 else base + np.arange(case["m"])
    close(got[i], want, f"unit {i}, branch {int(which[i])}")
  rec.label(f"idx {'last' if idx == len(others) else 'inner'}", f"m={case['m']}")
  rec.nontrivial(len(set(which.tolist())) > 1)


def st_select():
  parent = st.fixed_dictionaries(dict(dim=tail(st.integers(0, 3), 6),
                                      dt=st.sampled_from(["f", "i"])))
  return st.fixed_dictionaries(dict(
      n=tail(st.integers(1, 12), 300), parents=st.lists(parent, max_size=5), idx=st.integers(0, 5),
      k=tail(st.integers(1, 4), 10, 40), m=st.integers(0, 2), cfloat=st.booleans(),
      mutate=st.booleans(), seed=st.integers(0, 2**32 - 1)))


# ---------------------------------------------------------------- rejection
def fn_reject(case, rec):
  n, kind, a, b = case["n"], case["kind"], case["a"], case["b"]
  rec.label(kind)
  rec.nontrivial()
  if kind == "fns":
    if a == b:
      return
    ps = [np.ones(n) for _ in range(a)]
    raises(ValueError, lambda: scm.transformed_normal_cpd(
        ps, [1.0] * a, [FUNS["id"]] * b, 0.0, 1.0), f"{a} parents with {b} functions")
  elif kind == "add dims":
    if a + 1 == b:
      return
    raises(ValueError, lambda: scm.add_gaussian_noise(
        np.zeros((n, a + 1)), np.zeros(b), np.identity(b)),
        f"adding {b}-dimensional noise to {a + 1}-dimensional data")
  elif kind == "add scalar":
    raises(ValueError, lambda: scm.add_gaussian_noise(
        np.zeros(n) if case["flat"] else np.zeros((n, 1)), np.zeros((b, 1)) if b > 1
        else np.zeros((2, 1)), 1.0), "adding vector noise to scalar data")
  else:
    ps = [np.zeros(n) for _ in range(a)]
    raises(ValueError, lambda: scm.categorical_conditioning(
        ps, a + b - 1, [lambda n, p: np.zeros(n)] * 2),
        f"conditioning on parent {a + b - 1} of {a}")


def st_reject():
  return st.fixed_dictionaries(dict(
      kind=st.sampled_from(["fns", "add dims", "add scalar", "index"]),
      n=st.integers(1, 6), a=st.integers(1, 4), b=st.integers(1, 4),
      flat=st.booleans(), seed=st.just(0)))


def fn_det(case, rec):
  n, v = case["n"], case["v"]
  g = arr(scm.deterministic_cpd(n, v), "deterministic_cpd", shape=(n,))
  require(np.all(g == v), f"deterministic_cpd({n}, {v}) = {g}")
  rec.nontrivial(n > 1)


def st_det():
  return st.fixed_dictionaries(dict(
      n=st.integers(0, 20), v=st.one_of(st.integers(-5, 5), st.floats(-1e6, 1e6)),
      seed=st.just(0)))


SUBS = [
    Sub("exact", st_exact, fn_exact, 1600),
    Sub("noise", st_noise, fn_noise, 800),
    Sub("noise_large", st_noise_large, fn_noise, 400),
    Sub("logistic", st_logistic, fn_logistic, 600),
    Sub("select", st_select, fn_select, 900),
    Sub("reject", st_reject, fn_reject, 300),
    Sub("deterministic", st_det, fn_det, 100),
]
