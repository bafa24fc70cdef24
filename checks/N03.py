"""Front-door scores implement the front-door influence function."""
import numpy as np
from hypothesis import strategies as st

from vlib import nuis, repo
from vlib.core import Sub, arr, close, require, rng, tail

data, parameters = repo.load("data", "parameters")
ID = "N03"
RULE = ("formula: generated finite-support fitting and evaluation data against a "
        "brute-force sum over the support; non-trivial = at least two mediator values seen "
        "in fitting. effect: exact populations of front-door models with a hidden "
        "confounder; non-trivial = confounded and effect non-zero")


def support(rs, k, d, dtype):
  lim = max(9, k)
  s = np.unique(rs.randint(-lim, lim + 1, size=(6 * k, d)), axis=0)
  s = s[rs.permutation(len(s))[:k]].astype(dtype)
  return s / 2 if dtype == "f8" else s


def fn_formula(case, rec):
  d, ov, ratio = case["d"], case["ov"], case["ratio"]
  rs = rng(case)
  sup = support(rs, case["k"], d, case["zdt"])
  size = {g: max(case["fit"][g], 2 * case["k"]) for g in ("n0", "n1")} if case["k"] > 20 else {}
  fit = nuis.make_data(dict(case["fit"], **size), d, support=sup, skew=True)
  ev = nuis.make_data(case["ev"], d, support=support(rs, case["k"], d, case["zdt"])
                      if case["unseen"] else sup)
  settings = dict(min_units=case["units"], min_overlap=ov, min_ratio_to_uniform=ratio)
  eta = parameters.FrontDoorLinearFiniteZ(
      d, **{k: v for k, v in settings.items() if v is not None})
  ov, ratio = .05 if ov is None else ov, 10 if ratio is None else ratio
  for f in case["before"]:
    eta.fit(nuis.make_data(f, d, support=sup))
  c = nuis.copy_data(fit)
  unit = case["unit"]
  eta.fit(fit if unit == 1 else nuis.in_unit(fit, unit))
  require(nuis.unchanged(fit, c), "fitting changed the data")
  require(eta.has_enough_samples(), "not ready after fitting on enough data")
  c = nuis.copy_data(ev)
  got = arr(eta.calculate_score(ev if unit == 1 else nuis.in_unit(ev, unit)), "score",
            shape=(len(ev),)) / unit
  require(nuis.unchanged(ev, c), "scoring changed the data")
  want = nuis.front_door(fit, ev, ov, ratio)
  scale = 1 + np.abs(fit.rsp).max() + np.abs(ev.rsp).max()
  close(got / scale, want / scale, "front-door score", rtol=1e-7, atol=1e-8)
  seen = {tuple(r) for r in fit.cov.tolist()}
  if not {tuple(r) for r in ev.cov.tolist()} <= seen:
    rec.label("unseen mediator value scored")
  if not .1 < fit.exp.mean() < .9:
    rec.label("rare treatment or control")
  if len(seen) > 8:
    rec.label("more than 8 mediator values")
  if len(seen) > 64:
    rec.label("more than 64 mediator values")
  rec.label(f"d={d}", f"exposures {fit.exp.dtype}/{ev.exp.dtype}")
  rec.nontrivial(len(seen) > 1)


def st_formula():
  return st.fixed_dictionaries(dict(
      d=st.integers(1, 3), k=tail(st.integers(1, 5) | st.integers(6, 16), 70, 300),
      fit=nuis.st_data(min_t=3),
      ev=nuis.st_data(min_t=1, max_n=20), unseen=st.booleans(),
      unit=st.sampled_from(nuis.UNITS), before=st.lists(nuis.st_data(max_n=20), max_size=1), units=st.integers(1, 3),
      zdt=st.sampled_from(["i8", "f8"]), ov=st.sampled_from([None, .001, .01, .05, .1, .3, .5]),
      ratio=st.sampled_from([None, 1, 2, 10, 100, 1e5]), seed=st.integers(0, 2**31)))


def fn_effect(case, rec):
  d = case["d"]
  rs = rng(case)
  a = np.array(case["a"])  # a[u][x]
  b = np.array(case["b"], dtype=int)  # b[x][z]
  k = b.shape[1]
  sup = support(rs, k, d, case["zdt"])
  k = len(sup)
  b = b[:, :k]
  b = b * (b[::-1].sum(axis=1))[:, None]  # equal row sums: P(x|u) stays exact
  rows = [(u, x, z, a[u, x] * b[x, z]) for u in (0, 1) for x in (0, 1) for z in range(k)]
  n = sum(r[3] for r in rows)
  mult = int(np.ceil(5000 / n))
  rows = np.repeat(np.array([r[:3] for r in rows]), [r[3] * mult for r in rows], axis=0)
  if len(rows) > 60000:
    rec.label("skipped: too large")
    return
  rows = rows[rs.permutation(len(rows))]
  u, x, zi = rows.T
  gam = rs.choice([-2, -1, .5, 1, 3], size=d)
  z = sup[zi]
  p = b / b.sum(axis=1, keepdims=True)
  alpha = case["alpha"]
  y = z.dot(gam) + alpha * u
  eff = (p[1] - p[0]).dot(sup).dot(gam)
  dat = data.ExpData(z, x.astype(case["dt"]), y)
  eta = parameters.FrontDoorLinearFiniteZ(d, 5, 1e-4, 1e4)
  eta.fit(dat)
  s = arr(eta.calculate_score(dat), "score", shape=(len(dat),))
  got = s.mean()
  size = np.abs(sup.dot(gam)).max() + abs(alpha)
  require(abs(got - eff) <= .01 * size, "mean front-door score versus the true effect",
          got=got, effect=eff, naive=y[x == 1].mean() - y[x == 0].mean(), n=len(dat))
  naive = y[x == 1].mean() - y[x == 0].mean()
  rec.label(f"d={d}")
  rec.nontrivial(abs(naive - eff) > .02 * size and abs(eff) > .02 * size)


def st_effect():
  cnt = st.integers(1, 9)
  k = st.integers(2, 4)
  return st.fixed_dictionaries(dict(
      d=st.integers(1, 3), a=st.tuples(st.tuples(cnt, cnt).map(list),
                                       st.tuples(cnt, cnt).map(list)).map(list),
      b=k.flatmap(lambda m: st.lists(st.lists(cnt, min_size=m, max_size=m), min_size=2,
                                     max_size=2)),
      alpha=st.sampled_from([0, 1, -3, 10]), zdt=st.sampled_from(["i8", "f8"]),
      dt=st.sampled_from(["i4", "i8", "f8"]), seed=st.integers(0, 2**31)))


SUBS = [
    Sub("formula", st_formula, fn_formula, 1500),
    Sub("effect", st_effect, fn_effect, 240),
]
