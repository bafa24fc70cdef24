"""Back-door effect estimates are doubly robust and equivariant."""
import numpy as np
from hypothesis import strategies as st

from vlib import nuis, repo
from vlib.core import Sub, arr, close, require, rng

data, parameters = repo.load("data", "parameters")
ID = "N02"
RULE = ("robust: finite populations (cells x treatment counts, arbitrary responses), one "
        "correct predictor and one arbitrary wrong one; non-trivial = at least two cells "
        "with different treated shares. scale: response multiplied by a constant, stub and "
        "bundled estimators; swap: treatment and control exchanged; non-trivial = the "
        "scores are not all zero")


def population(case):
  """(ExpData, cell index per unit, cells) of an exactly known population."""
  rs = rng(case)
  d, counts = case["d"], np.array(case["counts"])
  k = len(counts)
  cells = np.unique(rs.randint(-3, 4, size=(3 * k, d)), axis=0).astype(float)
  cells = cells[rs.permutation(len(cells))[:k]]
  k = len(cells)
  counts = counts[:k]
  cell = np.concatenate([np.full(c, i) for i in range(k) for c in counts[i]])
  t = np.concatenate([np.full(counts[i][x], x) for i in range(k) for x in (0, 1)])
  y = (rs.normal(size=k)[cell] * 3 + rs.normal(size=(k, 2))[cell, t] * 2 + rs.normal(
      size=len(t))) * case["yscale"]
  p = rs.permutation(np.tile(np.arange(len(t)), case["times"]))
  cell, t, y = cell[p], t[p], y[p]
  return data.ExpData(cells[cell], t.astype(case["dt"]), y), cell, cells


def fn_robust(case, rec):
  pop, cell, cells = population(case)
  t = pop.exp.astype(int)
  rec.label("large" if len(pop) > 2000 else "small")
  k = len(cells)
  n1 = np.array([((cell == i) & (t == 1)).sum() for i in range(k)])
  n0 = np.array([((cell == i) & (t == 0)).sum() for i in range(k)])
  m = np.array([[pop.rsp[(cell == i) & (t == x)].mean() for x in (0, 1)]
                for i in range(k)])
  truth = ((n0 + n1) * (m[:, 1] - m[:, 0])).sum() / len(pop)
  if case["outcome"]:
    table = {(float(x),) + tuple(cells[i].tolist()): m[i, x] for i in range(k)
             for x in (0, 1)}
    resp = nuis.TablePredictor(table)
    prop = nuis.StubPropensity(None, case["w"], case["sharp"])
    ov = case["ov"]
  else:
    resp = nuis.StubResponse(None, case["w"], case["wscale"])
    prop = nuis.TablePredictor(
        {tuple(cells[i].tolist()): n1[i] / (n0[i] + n1[i]) for i in range(k)}, True)
    ov = .001
  if case["learn"]:
    table = nuis.TablePredictor(None, not case["outcome"])
    resp, prop = (table, prop) if case["outcome"] else (resp, table)
    rec.label("learned")
  eta = parameters.AIPW(case["d"], resp, prop, min_units=1, min_overlap=ov)
  eta.fit(pop)
  s = arr(eta.calculate_score(pop), "score", shape=(len(pop),))
  scale = (np.abs(pop.rsp).max() + case["wscale"]) * len(pop)
  close(s.mean() / scale, truth / scale,
        "mean score with a correct " + ("outcome" if case["outcome"] else "propensity") +
        " predictor versus the adjusted effect (relative to the scale)", rtol=0, atol=1e-11)
  rec.label("outcome correct" if case["outcome"] else "propensity correct")
  rec.nontrivial(len(set((n1 / (n0 + n1)).tolist())) > 1)


ST_COUNT = st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 1, 70])


def st_robust():
  return st.fixed_dictionaries(dict(
      d=st.integers(1, 3), outcome=st.booleans(), learn=st.booleans(),
      times=st.integers(0, 15).map(lambda i: 100 if i == 15 else 1),
      counts=st.lists(st.tuples(ST_COUNT, ST_COUNT).map(list),
                      min_size=1, max_size=6),
      yscale=st.sampled_from([.1, 1, 50]), w=st.integers(0, 50).map(lambda v: v / 7),
      wscale=st.sampled_from([.1, 1, 100]), sharp=st.sampled_from([.1, 1, 5]),
      ov=st.sampled_from([.001, .05, .3, .5]), dt=st.sampled_from(["i4", "i8", "f8"]),
      seed=st.integers(0, 2**31)))


def build(case, second):
  d, ov, kind = case["d"], case["ov"], case["kind"]
  c = case["c"] if second == "scale" else 1
  sw = second == "swap"
  if kind == "stub":
    return parameters.AIPW(
        d, nuis.StubResponse(None, case["w"], 2.0 * c, sw),
        nuis.StubPropensity(None, case["w"], case["sharp"], sw), min_units=1,
        min_overlap=ov)
  if kind == "LinearParameterBinaryTreatment":
    return parameters.LinearParameterBinaryTreatment(d)
  if kind == "LinearRegressionParameter":
    return parameters.LinearRegressionParameter(d)
  return getattr(parameters, kind)(d, min_units=1, min_overlap=ov)


def scores(eta, fit, ev):
  eta.fit(fit)
  return arr(eta.calculate_score(ev), "score", shape=(len(ev),))


def fn_scale(case, rec):
  d, c = case["d"], case["c"]
  fit, ev = nuis.make_data(case["fit"], d), nuis.make_data(case["ev"], d)
  a = scores(build(case, None), fit, ev)
  b = scores(build(case, "scale"), data.ExpData(fit.cov, fit.exp, c * fit.rsp),
             data.ExpData(ev.cov, ev.exp, c * ev.rsp))
  size = 1 + np.abs(a).max()
  close(b / c / size, a / size, f"{case['kind']}: scores after scaling the response by {c}",
        rtol=0, atol=1e-8)
  rec.label(case["kind"])
  rec.nontrivial(np.abs(a).max() > 0)


def st_scale():
  return st.fixed_dictionaries(dict(
      d=nuis.st_dim(), fit=nuis.st_data(min_t=2), ev=nuis.st_data(min_t=1),
      kind=st.sampled_from([
          "stub", "stub", "AIPWLinearLogistic", "AIPWKernelRidgeLogistic",
          "AIPWKernelGradientBoosting", "LinearParameterBinaryTreatment",
          "LinearRegressionParameter"]),
      c=st.sampled_from([2, -1, .01, -30, 1000, 1e-11, 1e10, -1e-6]), w=st.integers(0, 50).map(lambda v: v / 7),
      sharp=st.sampled_from([.1, 1, 5]), ov=st.sampled_from([.001, .05, .25, .5]),
      seed=st.just(0)))


def fn_swap(case, rec):
  d = case["d"]
  fit, ev = nuis.make_data(case["fit"], d), nuis.make_data(case["ev"], d)
  flip = lambda q: data.ExpData(q.cov, 1 - q.exp, q.rsp)
  a = scores(build(case, None), fit, ev)
  b = scores(build(case, "swap"), flip(fit), flip(ev))
  size = (1 + np.abs(a).max() + np.abs(ev.rsp).max()) / case["ov"]
  tol = 2e-3 if case["kind"] == "AIPWKernelRidgeLogistic" else 1e-9
  close(b / size, -a / size,
        f"{case['kind']}: negated scores after swapping treatment and control", rtol=0,
        atol=tol)
  rec.label(case["kind"])
  rec.nontrivial(np.abs(a).max() > 0)


def st_swap():
  return st.fixed_dictionaries(dict(
      d=nuis.st_dim(), fit=nuis.st_data(min_t=2), ev=nuis.st_data(min_t=1),
      kind=st.sampled_from(["stub", "stub", "AIPWKernelRidgeLogistic",
                            "LinearParameterBinaryTreatment"]),
      w=st.integers(0, 50).map(lambda v: v / 7), sharp=st.sampled_from([.1, 1, 5]),
      ov=st.sampled_from([.001, .05, .25, .5]), seed=st.just(0)))


SUBS = [
    Sub("robust", st_robust, fn_robust, 2000),
    Sub("scale", st_scale, fn_scale, 1000),
    Sub("swap", st_swap, fn_swap, 800),
]
