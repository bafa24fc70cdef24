"""Paper experiments build one correct arm per adjustment set."""
import copy
import itertools
import re

import numpy as np
from hypothesis import strategies as st

from vlib import repo
from vlib.core import Sub, arr, require

arms, bandits, paper, data = repo.load("arms", "bandits", "paper_utils", "data")
ID = "E01"
INF = float("inf")
RULE = ("arms: experiments over a model whose every covariate column is identifiable, for "
        "1-4 back-door paths, every dimension 1-4, costs, naming styles and interval "
        "methods; the columns reaching each arm's nuisance parameter are compared with the "
        "arm's name and all three algorithms are run; non-trivial = at least two paths of "
        "different dimensions. paper: the two published families end to end with their own "
        "models: every arm accepts data, is fitted on the values drawn for its variables "
        "and reports its estimates; non-trivial = always. intervals: every arm is compared "
        "with an arm built from the variables in its name and the requested interval method; "
        "non-trivial = some finite interval")


def code(name, coord, rows):
  """Column of coordinate coord of a variable."""
  base = {"Z": 1000, "V": 5000}[name[0]] + 100 * int(name[1:]) + 10 * coord
  return base + rows / 1024


def tagged(z_dim, v_dim, m):
  """Mechanisms with identifiable values."""

  def col(name, dim):
    return lambda n, parents: np.column_stack(
        [code(name, c, np.arange(n)) for c in range(dim)])

  cpds = {"X": lambda n, parents: np.arange(n) % 2,
          "Y": lambda n, parents: np.arange(n) * 1.0}
  for i in range(m + 1):
    cpds[f"Z{i}"] = col(f"Z{i}", z_dim[i])
    if i:
      cpds[f"V{i}"] = col(f"V{i}", v_dim[i])
  return cpds


def parse(name, latex):
  """The variables named by an arm."""
  body = name
  if latex and name != "frontdoor":
    require(name.startswith("$") and name.endswith("$") and len(name) > 2,
            "a LaTeX name is not in math mode", name=name)
    body = name[1:-1]
  if body == "frontdoor":
    return ("Z0",)
  parts = re.findall(r"([ZV])_\{?(\d+)\}?", body)
  require(parts and re.sub(r"[ZV]_\{?\d+\}?", "", body) == "", "unexpected arm name",
          name=name)
  return tuple(a + b for a, b in parts)


def check_names(arm_list, m, latex):
  named = [parse(a.name, latex) for a in arm_list]
  require(named.count(("Z0",)) == 1, "there is not exactly one front-door arm",
          names=[a.name for a in arm_list])
  back = [tuple(sorted(n, key=lambda v: int(v[1:]))) for n in named if n != ("Z0",)]
  want = [tuple(s + str(i + 1) for i, s in enumerate(c))
          for c in itertools.product("ZV", repeat=m)]
  require(sorted(back) == sorted(want), "the back-door arms are not one per choice of Z_i or "
          "V_i", got=[a.name for a in arm_list], want=want)
  return named


def check_costs(arm_list, named, case):
  for a, vs in zip(arm_list, named):
    want = sum(case["z0_cost"] if v == "Z0" else case["z_cost"] if v[0] == "Z" else
               case["v_cost"] for v in vs)
    require(abs(a.cost - want) <= 1e-9 * (1 + want), f"cost of {a.name}", got=a.cost,
            want=want)


def fn_arms(case, rec):
  m = case["m"]
  z_dim, v_dim = case["z"][:m + 1], [0] + case["v"][:m]
  u = case["units"]
  limit = case["rounds"] * u + case["extra"] % u
  model, arm_list, lucb, se, uniform = paper.generate_example_from_cpd(
      list(z_dim), list(v_dim), case["z_cost"], case["v_cost"], case["z0_cost"], m,
      tagged(z_dim, v_dim, m), limit, u, case["latex"],
      getattr(arms.CIAlgorithm, case["alg"]))
  named = check_names(arm_list, m, case["latex"])
  check_costs(arm_list, named, case)
  dims = {f"Z{i}": z_dim[i] for i in range(m + 1)}
  dims.update({f"V{i}": v_dim[i] for i in range(1, m + 1)})
  front = [a for a, n in zip(arm_list, named) if n == ("Z0",)][0]
  require(type(front.eta).__name__.startswith("FrontDoor") and
          all(type(a.eta).__name__.startswith("AIPW") for a in arm_list if a is not front),
          "arms use the wrong kind of estimator",
          got=[(a.name, type(a.eta).__name__) for a in arm_list])
  log = []

  def spy(arm, variables):
    inner = arm.update

    def fit(d):
      rows = arr(d.rsp, "responses", ndim=1)
      want = np.column_stack([code(v, c, rows) for v in variables for c in range(dims[v])])
      got = arr(d.cov, f"covariates of {arm.name}", ndim=2)
      require(got.shape == want.shape, f"{arm.name}: number of covariate columns",
              got=got.shape, want=want.shape)
      order = lambda x: x[:, np.argsort(x[0])] if len(x) else x
      require(np.allclose(order(got), order(want), rtol=0, atol=1e-6),
              f"{arm.name}: covariates are not those of the variables in its name",
              got=got[:1].tolist(), want=want[:1].tolist())
      require(np.array_equal(arr(d.exp, "exposures", shape=rows.shape), rows % 2),
              f"{arm.name}: exposures do not belong to their units")
      fits.append(arm)

    def update(d, delta):
      log.append((arm, len(d), float(delta)))
      return inner(d, delta)

    arm.eta.fit = fit
    arm.update = update

  fits = []
  for a, n in zip(arm_list, named):
    spy(a, n)
  sizes = []
  inner_generate = model.generate
  def generate(n):
    sizes.append(n)
    return inner_generate(n)
  model.generate = generate
  deltas = set()
  for name, bandit, cls in (("lucb", lucb, bandits.LUCBAlgorithm),
                            ("se", se, bandits.SuccessiveEliminationAlgorithm),
                            ("uniform", uniform, bandits.UniformAlgorithm)):
    require(isinstance(bandit, cls), f"{name}: wrong kind of algorithm", got=type(bandit))
    bandit.reset()
    log.clear(), sizes.clear(), fits.clear()
    np.random.seed(case["seed"] % 2**31)
    res = bandit.run()
    require({id(a) for a in res.lcb_by_arm} == {id(a) for a in arm_list},
            f"{name}: does not use the returned arms")
    require(log and {id(a) for a, _, _ in log} == {id(a) for a in arm_list},
            f"{name}: did not sample every arm")
    require({id(a) for a in fits} == {id(a) for a in arm_list},
            f"{name}: did not fit every arm")
    require(all(n == u for _, n, _ in log), f"{name}: updates are not of the round size",
            got=sorted({n for _, n, _ in log}), want=u)
    require(sizes, f"{name}: did not sample the model")
    total = [float(v) for v in res.cum_samples]
    # No arm has enough data for an interval, so only the limit ends the run.
    require(total[-1] > limit and all(t <= limit for t in total[:-1]),
            f"{name}: wrong sample limit", cumulative=total[-3:], limit=limit)
    deltas |= {d for _, _, d in log}
  require(len(deltas) == 1, "the algorithms use different error probabilities", got=deltas)
  rec.label(f"M={m}", "latex" if case["latex"] else "plain")
  rec.nontrivial(m > 1 and len(set(z_dim + v_dim[1:])) > 1)


def st_cost():
  return st.sampled_from([0.5, 1, 2, 3, 5, 7.25])


def st_arms():
  return st.sampled_from([1, 2, 2, 3, 3, 4, 5]).flatmap(lambda m: st.fixed_dictionaries(dict(
      m=st.just(m), z=st.lists(st.integers(1, 4), min_size=m + 1, max_size=m + 1),
      v=st.lists(st.integers(1, 4), min_size=m, max_size=m), z_cost=st_cost(),
      v_cost=st_cost(), z0_cost=st_cost(), latex=st.booleans(),
      alg=st.sampled_from(["FINITE_SAMPLE", "CLT", "CHI2"]),
      units=st.sampled_from([2, 3, 4, 10, 25]), rounds=st.integers(0, 40),
      extra=st.integers(0, 24),
      seed=st.integers(0, 2**31))))


def record(model):
  """Keeps every value drawn by the mechanisms of a model, one entry per call."""
  values = {}

  def wrap(name, mechanism):
    def call(n, parents):
      out = mechanism(n, parents)
      values.setdefault(name, []).append(np.array(out, dtype=float).reshape(n, -1))
      return out
    return call

  for name in list(model.cpds):
    model.cpds[name] = wrap(name, model.cpds[name])
  return values


def watch(arm, variables, values, fits):
  """Compares the data an arm is fitted on with the values of its variables."""
  inner = arm.eta.fit

  def fit(d):
    fits.append(arm)
    if "Y" in values and all(v in values for v in variables):
      y = np.concatenate(values["Y"]).ravel()
      rows = np.argsort(y)
      rsp = arr(d.rsp, "responses", ndim=1)
      at = rows[np.minimum(np.searchsorted(y[rows], rsp), len(y) - 1)]
      require(np.array_equal(y[at], rsp), f"{arm.name}: responses were never drawn")
      want = np.column_stack([np.concatenate(values[v])[at] for v in variables])
      got = arr(d.cov, f"covariates of {arm.name}", ndim=2)
      require(got.shape == want.shape, f"{arm.name}: number of covariate columns",
              got=got.shape, want=want.shape)
      order = lambda x: x[:, np.argsort(x[0])] if len(x) else x
      require(np.array_equal(order(got), order(want)),
              f"{arm.name}: covariates are not those of the variables in its name",
              got=got[:1].tolist(), want=want[:1].tolist())
      require(np.array_equal(arr(d.exp, "exposures", ndim=1),
                             np.concatenate(values["X"]).ravel()[at]),
              f"{arm.name}: exposures do not belong to their units")
    return inner(d)

  arm.eta.fit = fit


def fn_paper(case, rec):
  m = case["m"]
  z_dim, v_dim = case["z"][:m + 1], [0] + case["v"][:m]
  build = getattr(paper, f"get_section_5_{case['family']}_example")
  kw = dict(latex_names=case["latex"])
  if not case["latex"] and case["seed"] % 2:
    kw = {}
  model, arm_list, lucb, se, uniform = build(
      list(z_dim), list(v_dim), seed=case["seed"] % 10**6, z_cost=case["z_cost"],
      v_cost=case["v_cost"], z0_cost=case["z0_cost"], num_back_door_paths=m,
      sample_limit=0, units_per_round=400, **kw)
  named = check_names(arm_list, m, case["latex"])
  check_costs(arm_list, named, case)
  values, fits = record(model), []
  for a, variables in zip(arm_list, named):
    watch(a, variables, values, fits)
  for name, b in (("lucb", lucb), ("se", se), ("uniform", uniform)):
    b.reset()
    res = b.run()
    require({id(a) for a in fits} == {id(a) for a in arm_list}, f"{name}: did not fit every arm")
    fits.clear()
    require({id(a) for a in res.lcb_by_arm} == {id(a) for a in arm_list} and
            float(res.cum_samples[-1]) == 400 * len(arm_list),
            f"{name}: not one round over the returned arms", got=res.cum_samples)
    for a in arm_list:
      lo, hi = float(a.ci[0]), float(a.ci[1])
      require(0 <= lo <= hi, f"{a.name}: interval after {name}", got=a.ci)
      require(a.num_pulled == 1 and a.get_num_units() == 400, f"{a.name}: not updated once "
              f"by {name}", pulls=a.num_pulled, units=a.get_num_units())
      require(np.isfinite(a.ate) or a.var_est == INF, f"{a.name}: no estimates",
              ate=a.ate, var=a.var_est)
  rec.label(f"5.{case['family']}", f"M={m}")
  if all(np.isfinite(a.ate) for a in arm_list):
    rec.label("all arms estimated")
  rec.nontrivial()


def st_paper():
  return st.integers(1, 3).flatmap(lambda m: st.fixed_dictionaries(dict(
      m=st.just(m), family=st.sampled_from([1, 1, 2]),
      z=st.lists(st.integers(1, 2), min_size=m + 1, max_size=m + 1),
      v=st.lists(st.integers(1, 2), min_size=m, max_size=m), z_cost=st_cost(),
      v_cost=st_cost(), z0_cost=st_cost(), latex=st.booleans(),
      seed=st.integers(0, 2**31))))


def fn_intervals(case, rec):
  """The arms compute their intervals with the requested method."""
  m, alg = case["m"], case["alg"]
  z_dim, v_dim = case["z"][:m + 1], [0] + case["v"][:m]
  np.random.seed(case["seed"] % 2**31)
  model, arm_list, *_ = paper.generate_example_from_cpd(
      list(z_dim), list(v_dim), 1, 2, 3, m,
      paper.get_section_5_1_cpds(list(z_dim), list(v_dim), m, case["seed"] % 10**6),
      100, 10, False, getattr(arms.CIAlgorithm, alg))
  start, at = {}, 0
  for name, d in [*((f"Z{i}", z_dim[i]) for i in range(m + 1)),
                  *((f"V{i}", v_dim[i]) for i in range(1, m + 1))]:
    start[name], at = list(range(at, at + d)), at + d
  o = model.generate(2)
  require(arr(o.cov, "covariates").shape == (2, at), "covariate columns", got=o.cov.shape,
          want=at)
  finite = 0
  for a in arm_list:
    cols = [c for v in parse(a.name, False) for c in start[v]]

    def other(name):
      return arms.SampleSplittingArm(
          a.name, eta=copy.deepcopy(a.eta), data_transformer=data.get_coordinate_mask_fn(cols),
          ci_algorithm=getattr(arms.CIAlgorithm, name))

    clt = other("CLT")
    twin = clt if alg == "FINITE_SAMPLE" else other(alg)
    for k, units in enumerate(case["units"]):
      np.random.seed((case["seed"] + k) % 2**31)
      new = model.generate(units)
      got = []
      for arm in (a, twin):
        np.random.seed(k)
        arm.update(data.ExpData(new.cov.copy(), new.exp.copy(), new.rsp.copy()),
                   case["delta"])
        got.append((arm.ate, arm.var_est, *arm.ci))
      got, want = np.array(got, dtype=float)
      n = 2 if alg == "FINITE_SAMPLE" else 4
      require(np.allclose(got[:n], want[:n], rtol=1e-6, atol=1e-9, equal_nan=True),
              f"{a.name}: not the estimates of an arm over its columns with method {alg}",
              got=got.tolist(), want=want.tolist(), update=k)
      if np.isfinite(got[3]):
        finite += 1
        require(n == 4 or not np.allclose(got[2:], want[2:], rtol=1e-6),
                f"{a.name}: reports a CLT interval, not a finite-sample one", got=got.tolist())
  rec.label(alg)
  rec.nontrivial(finite > 0)


def st_intervals():
  return st.integers(1, 2).flatmap(lambda m: st.fixed_dictionaries(dict(
      m=st.just(m), z=st.lists(st.integers(1, 2), min_size=m + 1, max_size=m + 1),
      v=st.lists(st.integers(1, 2), min_size=m, max_size=m),
      alg=st.sampled_from(["FINITE_SAMPLE", "CLT", "CHI2"]),
      units=st.lists(st.sampled_from([100, 300, 2100]), min_size=1, max_size=3),
      delta=st.sampled_from([.01, .05, .3]), seed=st.integers(0, 2**31))))


SUBS = [Sub("arms", st_arms, fn_arms, 400),
        Sub("paper", st_paper, fn_paper, 60, 600),
        Sub("intervals", st_intervals, fn_intervals, 60, 600)]
