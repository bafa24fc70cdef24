"""Paper models have the stated causal structure and are seed-determined."""
import numpy as np
from hypothesis import strategies as st

from vlib import repo
from vlib.core import Sub, arr, require

paper, scm, arms, data = repo.load("paper_utils", "scm", "arms", "data")
ID = "E02"
RULE = ("structure: for both families, generated dimensions and seeds: the declared graph, "
        "and every mechanism evaluated twice under one random state with one parent "
        "disturbed (must react) or nothing disturbed (must not); non-trivial = at least two "
        "paths. seeds: the model is built twice from one seed under different global random "
        "states and once from another seed and the mechanisms compared on common inputs; "
        "non-trivial = always. effect: the effect of the treatment in 24 linear models of "
        "consecutive seeds, estimated without response noise; non-trivial = always")
N = 1500


def build_cpds(case, seed, glob):
  np.random.seed(glob % 2**32)
  m = case["m"]
  z, v = dims(case)
  return getattr(paper, f"get_section_5_{case['family']}_cpds")(z, v, m, seed)


def build(case, seed, glob):
  np.random.seed(glob % 2**32)
  m = case["m"]
  z, v = dims(case)
  return getattr(paper, f"get_section_5_{case['family']}_example")(
      z, v, seed=seed, z_cost=2, v_cost=1, z0_cost=5, num_back_door_paths=m,
      sample_limit=100, units_per_round=10)[0]


def dims(case):
  m = case["m"]
  return list(case["z"][:m + 1]), [0] + list(case["v"][:m])


def draw(cpds, name, parents, seed, n=N):
  np.random.seed(seed % 2**32)
  return np.asarray(cpds[name](n, [np.array(p, copy=True) for p in parents]), dtype=float)


def reacts(cpds, n, args, j, rs):
  """Whether mechanism n changes when only its parent j changes."""
  seed = int(rs.randint(2**31))
  if n == "Z0":
    ones = np.ones(N, dtype=int)
    return not np.array_equal(draw(cpds, n, [ones], seed), draw(cpds, n, [0 * ones], seed))
  base = draw(cpds, n, args, seed)
  for other in (args[j][rs.permutation(N)], args[j] + 1e6):
    changed = list(args)
    changed[j] = other
    if not np.array_equal(base, draw(cpds, n, changed, seed)):
      return True
  return False


def fn_structure(case, rec):
  m = case["m"]
  z, v = dims(case)
  model = build(case, case["seed"] % 10**6, case["glob"])
  vs = [f"V{i}" for i in range(1, m + 1)]
  zs = [f"Z{i}" for i in range(m + 1)]
  want = {"X": vs, "Z0": ["X"], "Y": zs}
  want.update({f"V{i}": [] for i in range(1, m + 1)})
  want.update({f"Z{i}": [f"V{i}"] for i in range(1, m + 1)})
  got = {str(n): sorted(model.parents[n]) for n in model.var_names}
  require(got == {k: sorted(p) for k, p in want.items()}, "declared graph", got=got,
          want=want)
  dim = {f"Z{i}": z[i] for i in range(m + 1)}
  dim.update({f"V{i}": v[i] for i in range(1, m + 1)})
  s = case["seed"] % 2**31
  rs = np.random.RandomState(s)
  # A sample, variable by variable.
  vals = {}
  for n in [str(q) for q in model.var_names]:
    ps = model.parents[n]
    require(all(p in vals for p in ps), f"{n} precedes its parents")
    vals[n] = draw(model.cpds, n, [vals[p] for p in ps], s)
    shape = (N, dim[n]) if n in dim else (N,)
    require(vals[n].shape == shape, f"dimensions of {n}", got=vals[n].shape, want=shape)
    require(np.all(np.isfinite(vals[n])), f"{n} is not finite")
    again = draw(model.cpds, n, [vals[p] for p in ps], s)
    require(np.array_equal(vals[n], again), f"{n} depends on more than its parents and the "
            "random state")
  require(set(np.unique(vals["X"])) == {0, 1}, "the treatment is not binary",
          got=np.unique(vals["X"])[:5])
  both = np.r_[vals["Z0"], draw(model.cpds, "Z0", [1 - vals["X"].astype(int)], s + 1)]
  require(len(np.unique(both, axis=0)) <= 10, "Z0 takes more than ten values",
          got=len(np.unique(both, axis=0)))
  # Every parent matters. (A random nonlinear function can be almost constant, so a
  # mechanism that does not react is tried again with other seeds.)
  for n in ["X", "Y", *zs]:
    ps = list(model.parents[n])
    for j, p in enumerate(ps):
      ok = reacts(model.cpds, n, [vals[q] for q in ps], j, rs)
      for k in range(1, 9):
        if ok:
          break
        rec.label("retried with another seed")
        ok = reacts(build_cpds(case, s % 10**6 + k, case["glob"]), n, [vals[q] for q in ps],
                    j, rs)
      require(ok, f"{n} does not depend on {p}")
  # Each unit's value depends on that unit's parents only.
  n = 6000 if case["glob"] % 3 == 0 else N
  for name in ["X", "Y", *zs[1:]]:
    args = [np.resize(vals[p], (n, *vals[p].shape[1:])) for p in model.parents[name]]
    other = [np.r_[a[:n // 2], a[n // 2:] + 2] for a in args]
    one, two = (draw(model.cpds, name, q, s, n) for q in (args, other))
    require(np.allclose(one[:n // 2], two[:n // 2], rtol=1e-6, atol=1e-6),
            f"{name}: a unit's value depends on other units", n=n)
  # The distribution of Z0 under a treatment does not depend on the number of units.
  taken = []
  for x in (0, 1) if n > N else ():
    few, many = (np.concatenate([draw(model.cpds, "Z0", [np.full(k, x)], s + 7 * x + j, k)
                                 for j in range(n // k)]) for k in (N, n))
    keys, at = np.unique(np.r_[few, many], axis=0, return_inverse=True)
    a, b = (np.bincount(q, minlength=len(keys)) for q in np.split(at.ravel(), 2))
    # Each difference of frequencies has a standard deviation below sqrt(2 * .25 / n).
    dev = np.abs(a - b) / n
    require(dev.max() < 7.5 * np.sqrt(.5 / n), "the distribution of Z0 depends on the number "
            "of units", treatment=x, few=a, many=b)
    taken.append(np.unique(many, axis=0))
  # Overlap: no value of Z0 reveals the treatment. The rarest one has about one unit in fifty.
  require(not taken or np.array_equal(*taken), "Z0 takes other values under treatment than "
          "under control", values=[len(q) for q in taken])
  o = model.generate(50)
  require(arr(o.cov, "covariates", ndim=2).shape == (50, sum(z) + sum(v)),
          "covariate columns", got=o.cov.shape, want=(50, sum(z) + sum(v)))
  require(arr(o.exp, "exposures").shape == (50,) and arr(o.rsp, "responses").shape == (50,),
          "shapes of exposures or responses")
  rec.label(f"5.{case['family']}", f"M={m}")
  rec.nontrivial(m > 1)


def mechanisms(cpds, case, inputs, seed, n):
  out = {}
  for name, f in cpds.items():
    out[name] = draw(cpds, name, inputs[name], seed, n)
  return out


def fn_seeds(case, rec):
  m = case["m"]
  z, v = dims(case)
  s = case["seed"] % (10**6 if case["step"] < 100 else 2**31)
  first = build_cpds(case, s, case["glob"])
  np.random.seed(case["glob2"] % 2**32)
  np.random.normal(size=case["glob2"] % 7)
  second = build_cpds(case, s, case["glob2"])
  n = 400
  rs = np.random.RandomState(s)
  x = rs.randint(0, 2, n)
  inputs = {"X": [rs.normal(size=(n, v[i])) for i in range(1, m + 1)],
            "Y": [rs.normal(size=(n, z[i])) for i in range(m + 1)], "Z0": [x]}
  for i in range(1, m + 1):
    inputs[f"V{i}"] = []
    inputs[f"Z{i}"] = [inputs["X"][i - 1]]
  require(set(first) == set(second) == set(inputs), "mechanisms of unexpected variables",
          got=sorted(first))
  a = mechanisms(first, case, inputs, s, n)
  b = mechanisms(second, case, inputs, s, n)
  # Nearly constant nonlinear functions can agree by chance, so several seeds are tried.
  differ = set()
  for k in range(1, 7):
    c = mechanisms(build_cpds(case, s + k * case["step"], case["glob"]), case, inputs, s, n)
    differ |= {name for name in inputs if not np.array_equal(a[name], c[name])}
    if len(differ | {f"V{i}" for i in range(m + 1)}) == len(inputs) + 1:
      break
  for name in inputs:
    require(a[name].shape == b[name].shape and np.allclose(a[name], b[name], rtol=1e-9,
                                                           atol=1e-9),
            f"{name}: the same seed gave different mechanisms", one=a[name].ravel()[:4],
            two=b[name].ravel()[:4])
    if name[0] != "V":  # exogenous variables are standard normal in every model
      require(name in differ,
              f"{name}: different seeds gave the same mechanism", seeds=[s, s + 6 * case["step"]])
  # The complete experiment, too.
  if case["full"]:
    m1 = build(case, s, case["glob"])
    m2 = build(case, s, case["glob2"])
    np.random.seed(s)
    d1 = m1.generate(30)
    np.random.seed(s)
    d2 = m2.generate(30)
    require(np.allclose(d1.cov, d2.cov, atol=1e-9) and np.allclose(d1.exp, d2.exp) and
            np.allclose(d1.rsp, d2.rsp, atol=1e-9),
            "experiments built from one seed generate different data")
    rec.label("experiment")
  rec.label(f"5.{case['family']}", f"seeds {case['step']} apart")
  rec.nontrivial()


def fn_effect(case, rec):
  """The effect exceeds ten random candidates, that is, effects between two random
  distributions of Z0 like those of the model; such effects are symmetric around 0."""
  z, v = dims(case)
  m, n = case["m"], 3000
  found = []  # per model: values of Z0's effect on Y, logarithms of both distributions
  for k in range(SEEDS):
    s = case["seed"] % 10**6 + k
    cpds = build_cpds(case, s, case["glob"])
    rest = [np.zeros((n, d)) for d in z[1:]]
    z0 = [draw(cpds, "Z0", [np.full(n, x)], s + x, n) for x in (0, 1)]
    both = np.concatenate(z0)
    keys, first, at = np.unique(both[:, 0], return_index=True, return_inverse=True)
    support = both[first]
    pad = np.zeros((n, z[0]))
    base = draw(cpds, "Y", [pad, *rest], s, n)
    pad[:len(keys)] = support
    value = (draw(cpds, "Y", [pad, *rest], s, n) - base)[:len(keys)]
    at = at.reshape(2, n)
    prob = np.array([np.bincount(a, minlength=len(keys)) for a in at]) / n
    found.append((value, prob))
  tau = np.array([(p[1] - p[0]).dot(y) for y, p in found])
  se = np.array([np.sqrt(sum(q.dot(y * y) - q.dot(y)**2 for q in p) / n) for y, p in found])
  below = np.flatnonzero(tau < -3 * se).tolist()
  require(len(below) < 4, "treatment effects are negative too often to be larger than ten "
          "random candidates", seeds=below, effects=np.round(tau, 4).tolist())
  # The spread of the candidates' logarithms is estimated from the models.
  logs = [np.log(np.maximum(p, .5 / n)) for _, p in found]
  spread = np.sqrt(np.mean([np.var(g, axis=1, ddof=1) for g in logs if g.shape[1] > 1]))
  rs = np.random.RandomState(case["seed"] % 2**31)
  rank = []
  for (y, _), t in zip(found, tau):
    w = np.exp(spread * rs.normal(size=(2, 1000, len(y))))
    w /= w.sum(axis=2, keepdims=True)
    rank.append(np.mean((w[1] - w[0]).dot(y) < t))
  # The rank of a value above the largest of ten is about .94 on average over the models,
  # with a deviation of .013 between averages over 24 models.
  require(np.mean(rank) > .87, "treatment effects are too small to be larger than ten random "
          "candidates", ranks=np.round(rank, 2).tolist(), mean=np.mean(rank))
  rec.label(f"M={m}", "a negative effect" if below else "no negative effect")
  rec.nontrivial()


SEEDS = 24


def st_dims(k):
  return st.one_of(st.lists(st.sampled_from([1, 2, 2]), min_size=k, max_size=k),
                   st.just([1] * k))


# Distances between seeds, none of which may be a period.
STEPS = st.sampled_from([1, 1, 1, 2, 100, 256, 1000, 10**4, 2**16, 10**5, 10**6, 2**20, 2**28])


def st_model(max_m=4):
  return st.integers(1, max_m).flatmap(lambda m: st.fixed_dictionaries(dict(
      m=st.just(m), family=st.sampled_from([1, 1, 2, 2]),
      z=st_dims(m + 1), v=st_dims(m),
      glob=st.integers(0, 2**31), glob2=st.integers(0, 2**31), full=st.booleans(), step=STEPS,
      seed=st.integers(0, 2**31))))


def st_wide():
  """The linear family is cheap in every dimension."""
  return st.integers(1, 6).flatmap(lambda m: st.fixed_dictionaries(dict(
      m=st.just(m), family=st.just(1),
      z=st.lists(st.integers(1, 6), min_size=m + 1, max_size=m + 1),
      v=st.lists(st.integers(1, 6), min_size=m, max_size=m),
      glob=st.integers(0, 2**31), glob2=st.integers(0, 2**31), full=st.just(m < 4), step=STEPS,
      seed=st.integers(0, 2**31))))


def st_linear():
  return st.integers(1, 3).flatmap(lambda m: st.fixed_dictionaries(dict(
      m=st.just(m), family=st.just(1),
      z=st.lists(st.integers(1, 4), min_size=m + 1, max_size=m + 1),
      v=st.lists(st.integers(1, 3), min_size=m, max_size=m),
      glob=st.integers(0, 2**31), seed=st.integers(0, 2**31))))


SUBS = [Sub("structure", lambda: st.one_of(st_model(), st_wide()), fn_structure, 150),
        Sub("seeds", lambda: st.one_of(st_model(), st_wide()), fn_seeds, 170),
        Sub("effect", st_linear, fn_effect, 16, 400)]
