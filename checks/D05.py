"""Data sets are values: nothing writes to them and only their values matter."""
import numpy as np
from hypothesis import strategies as st

from vlib import armkit, banditkit, nuis, repo
from vlib.core import Sub, require, rng, tail

data, parameters, arms, bandits = repo.load("data", "parameters", "arms", "bandits")
ID = "D05"
RULE = ("every case runs the same computation under the same random state twice: on plain "
        "contiguous float64 data and on equal data in generated representations (integer or "
        "floating types, column order, strided, reversed and sliced views, negative zeros, "
        "read-only arrays; another one for every data set), then requires equal results and "
        "untouched data. split: data-set operations, transformers and tables. estimator: "
        "fits, scores, evaluations and widths of the nuisance estimators. arm: update "
        "histories of the arms, also overwriting each data set after its update. bandit: "
        "runs on fixed data. non-trivial = some representation differs from the plain one "
        "and there are at least four units")


# ------------------------------------------------------------ representations
def st_rep():
  return st.fixed_dictionaries(dict(
      layout=st.sampled_from(["C", "F", "step", "reverse", "columns", "slice"]),
      types=st.sampled_from(["", "", "int", "exp", "exp32", "f4", "narrow"]),
      zero=st.booleans(), frozen=st.booleans()))


def whole(a, limit=2**31):
  return a.size > 0 and bool(np.all(a == np.round(a)) and np.all(np.abs(a) < limit))


def lay(a, layout):
  """The same values in another memory layout."""
  if layout == "F":
    return np.asfortranarray(a)
  if layout == "step":
    big = np.full((2 * len(a) + 3,) + a.shape[1:], 77, dtype=a.dtype)
    big[1:2 * len(a) + 1:2] = a
    return big[1:2 * len(a) + 1:2]
  if layout == "reverse":
    return a[::-1].copy()[::-1]
  if layout == "columns" and a.ndim == 2:
    big = np.full((len(a), a.shape[1] + 2), 55, dtype=a.dtype)
    big[:, 1:-1] = a
    return big[:, 1:-1]
  if layout == "slice":
    big = np.full((len(a) + 5,) + a.shape[1:], 33, dtype=a.dtype)
    big[2:2 + len(a)] = a
    return big[2:2 + len(a)]
  return a.copy()


def represent(d, rep):
  """d in another representation; every value stays equal."""
  cov, exp, rsp = (np.array(a, dtype=float) for a in (d.cov, d.exp, d.rsp))
  t = rep["types"]
  if t == "int":
    cov = cov.astype(np.int64) if whole(cov) else cov
    rsp = rsp.astype(np.int64) if whole(rsp) else rsp
    exp = exp.astype(np.int64)
  elif t == "narrow":
    cov, exp, rsp = (a.astype(np.int8) if whole(a, 2**7) else a for a in (cov, exp, rsp))
  elif t == "exp":
    exp = exp.astype(np.int64)
  elif t == "exp32":
    exp = exp.astype(np.int32)
  elif t == "f4":
    exp = exp.astype(np.float32)
  out = []
  for a in (cov, exp, rsp):
    if rep["zero"] and a.dtype.kind == "f":
      a = np.where(a == 0, -0.0, a).astype(a.dtype)
    a = lay(a, rep["layout"])
    if rep["frozen"]:
      a.flags.writeable = False
    out.append(a)
  return data.ExpData(*out)


PLAIN = dict(layout="C", types="", zero=False, frozen=False)


class Sets:
  """Hands out data sets in the representations of the case and watches them."""

  def __init__(self, reps, one_type):
    self.reps = reps
    self.one_type = one_type  # tables of values are documented to need matching types
    self.given = []

  def __call__(self, d):
    rep = self.reps[len(self.given) % len(self.reps)] if self.reps else PLAIN
    if self.reps and self.one_type:
      rep = dict(rep, types=self.reps[0]["types"])
    v = represent(d, rep)
    self.given.append((v, (v.cov, v.exp, v.rsp), tuple(a.copy() for a in (v.cov, v.exp, v.rsp))))
    return v

  def untouched(self, what, skip=()):
    for i, (v, now, then) in enumerate(self.given):
      if i in skip:
        continue
      require(v.cov is now[0] and v.exp is now[1] and v.rsp is now[2] and len(v) == len(then[1]),
              f"{what}: data set {i} was changed", units=len(v))
      for name, a, b in zip(("covariates", "exposures", "responses"), now, then):
        require(np.array_equal(a, b), f"{what}: the {name} of data set {i} were overwritten",
                got=a[:5].tolist(), was=b[:5].tolist())


def compare(got, want, what, tol):
  require(len(got) == len(want), f"{what}: {len(got)} results instead of {len(want)}")
  for (n, a), (m, b) in zip(got, want):
    require(n == m, f"{what}: {n} instead of {m}")
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    require(a.shape == b.shape, f"{what}: {n} has another shape", got=a.shape, want=b.shape)
    if a.size == 0:
      continue
    fin = np.abs(b[np.isfinite(b)])
    scale = fin.max() if fin.size else 0
    require(np.allclose(a, b, rtol=tol, atol=tol * (scale + 1e-9), equal_nan=True),
            f"{what}: {n} depends on how equal data is represented",
            got=a.ravel()[:6].tolist(), want=b.ravel()[:6].tolist())


def twice(case, rec, compute, what, units, tol=1e-6, one_type=False):
  """Runs compute(sets) on plain data and on the representations of the case."""
  out = []
  for reps in ([], case["reps"]):
    np.random.seed(case["seed"] % 2**32)
    sets = Sets(reps, one_type)
    out.append(compute(sets))
    sets.untouched(what)
  compare(out[1], out[0], what, tol)
  rec.nontrivial(units >= 4 and any(r != PLAIN for r in case["reps"]))
  for r in case["reps"]:
    rec.label(r["layout"], r["types"] or "float", "frozen" if r["frozen"] else "writable")


def st_reps():
  return st.lists(st_rep(), min_size=1, max_size=4)


# ----------------------------------------------------------------- operations
def flat(name, d):
  return [(f"{name} covariates", d.cov), (f"{name} exposures", d.exp),
          (f"{name} responses", d.rsp), (f"{name} length", len(d))]


def fn_split(case, rec):
  spec, dim = case["data"], case["d"]
  base = nuis.make_data(spec, dim, discrete=case["discrete"])
  more = nuis.make_data(dict(spec, s=spec["s"] + 1), dim, discrete=case["discrete"])
  n = len(base)
  for d, w in zip((base, more), case["whole"]):
    d.rsp = np.round(3 * d.rsp) if w else d.rsp

  def compute(sets):
    out = []
    for op in case["ops"]:
      d = sets(base)
      if op == "k_fold":
        for i, f in enumerate(d.k_fold(case["k"])):
          out += flat(f"fold {i}", f)
      elif op == "subsample":
        for i, f in enumerate(d.subsample(case["p"])):
          out += flat(f"part {i}", f)
      elif op == "index":
        out += flat("slice", d[case["k"]:]) + flat("every other", d[::2])
      elif op == "append":
        parts = d.k_fold(2)
        parts[0].append(sets(more))
        parts[0].append(parts[1])
        out += flat("appended", parts[0])
      elif op == "append whole":
        own = data.ExpData(d.cov, d.exp, d.rsp)
        own.append(sets(more))
        own.append(d)
        out += flat("appended", own)
      elif op == "append to none":
        own, part = d[:0], d.k_fold(2)[0]
        own.append(part)
        for a in (part.cov, part.exp, part.rsp):
          if sets.reps and a.flags.writeable:  # the caller uses its arrays again
            a[...] = 3
        out += flat("appended", own)
      elif op == "table":
        cpd = data.TabularCPD(case["ratio"])
        cpd.fit(d.exp, d.cov)
        q = sets(more)
        zs = np.array([z for z in cpd.z_support()]).reshape(-1, dim)
        out += [("table", cpd.predict(d.exp, d.cov)), ("support", cpd.support_size()),
                ("sorted support", zs[np.lexsort(zs.T)] if len(zs) else zs),
                ("x support", sorted(float(x) for x in cpd.x_support())),
                ("marginals", sorted(cpd.x_marginal.values())),
                ("other values", cpd.predict(q.exp, q.cov))]
      else:
        f = {"identity": data.get_identity_fn(),
             "remove": data.get_remove_coordinates_fn(case["k"] % dim),
             "mask": data.get_coordinate_mask_fn([(case["k"] + j) % dim for j in range(2)])}[op]
        out += flat(op, f(d)) + flat(op + " again", f(d))
    return out

  twice(case, rec, compute, "/".join(case["ops"]), n, tol=1e-12,
        one_type="table" in case["ops"])
  rec.label(*case["ops"])


def st_split():
  return st.fixed_dictionaries(dict(
      data=nuis.st_data(min_n=1, min_t=1), d=st.integers(1, 5), discrete=st.booleans(),
      whole=st.tuples(st.booleans(), st.booleans()),
      ops=st.lists(st.sampled_from(["k_fold", "subsample", "index", "append", "append whole",
                                    "append to none",
                                    "table", "table", "identity", "remove", "mask"]),
                   min_size=1, max_size=5),
      k=st.integers(1, 6), p=st.sampled_from([0, .2, .5, 1]), ratio=st.sampled_from([2, 10, 50]),
      reps=st_reps(), seed=st.integers(0, 2**31)))


# ----------------------------------------------------------------- estimators
def width(eta, e, d):
  x = np.c_[d.exp, d.cov] if e["kind"].startswith("Front") else d.cov
  lam = np.linalg.eigvalsh(x.T.dot(x).astype(float))
  if e["kind"].startswith("Linear") or lam[0] < 1e-6 * lam[-1]:
    return []  # no width, or an ill-conditioned one
  return [("width", eta.calculate_cs_width(.1, sub_g=1, rho=.1))]


def fn_estimator(case, rec):
  e = dict(case["e"], units=case["e"]["units"] or 2)
  front = e["kind"].startswith("Front")
  mk = lambda s: nuis.make_data(dict(s, n1=s["n1"] + 150 * case["big"]), e["d"], discrete=front and s["kind"] in (
      "normal", "collinear", "const"))
  fits = [mk(s) for s in case["fits"]]
  ev = mk(case["ev"])
  for f, w in zip(fits + [ev], case["whole"]):
    if case["big"]:  # sums that exceed the range of narrow integers
      f.cov = np.clip(np.round(9 * f.cov), -120, 120)
    f.rsp = np.round(3 * f.rsp) if w else f.rsp

  def compute(sets):
    eta = nuis.make_estimator(e)
    out = []
    for j, f in enumerate(fits):
      given = sets(f)
      eta.fit(given)
      out += [(f"ready after {j}", float(eta.has_enough_samples()))]
      if not eta.has_enough_samples():
        continue
      # Scoring has no effect on the data of the fit or the evaluation.
      out += [(f"scores {j}", eta.calculate_score(sets(ev))),
              (f"scores of the fitting data {j}", eta.calculate_score(given)),
              (f"nuisances {j}", eta.transform(sets(ev)))]
      out += width(eta, e, f)
    return out

  twice(case, rec, compute, e["kind"], min(len(ev), sum(len(f) for f in fits)),
        tol=5e-3 if e["kind"] in nuis.WARM[:2] else 1e-6, one_type=front)
  rec.label(e["kind"])


def st_estimator():
  return st.fixed_dictionaries(dict(
      e=nuis.st_estimator(), fits=st.lists(nuis.st_data(min_t=2, max_n=30), min_size=1,
                                           max_size=2),
      ev=nuis.st_data(min_t=1, max_n=16),
      big=st.integers(0, 3).map(lambda i: int(i == 3)), whole=st.lists(st.booleans(), min_size=3, max_size=3),
      reps=st_reps(), seed=st.integers(0, 2**31)))


# ----------------------------------------------------------------------- arms
ARM_KINDS = ["AIPW", "AIPWLinearLogistic", "FrontDoorLinearFiniteZ",
             "LinearParameterBinaryTreatment", "LinearRegressionParameter"]


def new_arm(case, eta):
  if case["arm"] == "bootstrap":
    return arms.BootstrapArm("arm", eta, data.get_identity_fn(), n_bootstraps=case["boots"],
                             stable_splits=case["stable"])
  return arms.SampleSplittingArm(
      "arm", eta, data.get_identity_fn(), stable_splits=case["stable"],
      **dict(armkit.BASE, ci_algorithm=armkit.ALGS[case["alg"]]))


def fn_arm(case, rec):
  e = dict(case["e"], units=case["e"]["units"] or 2)
  front = e["kind"].startswith("Front")
  specs = [case["first"]] + case["later"]
  if case["arm"] == "bootstrap" or not e["kind"].startswith("AIPW"):
    # Only sample splitting with these estimators waits until both folds are large enough.
    specs[0] = dict(specs[0], n0=max(12, specs[0]["n0"]), n1=max(12, specs[0]["n1"]))
  batches = []
  for s, w in zip(specs, case["whole"]):  # whole numbers and fractions may mix
    b = nuis.make_data(dict(s, kind="int" if front or w[0] else "normal"), e["d"])
    b.rsp = np.round(3 * b.rsp) if w[1] else b.rsp
    batches.append(b)

  def compute(sets):
    arm = new_arm(case, nuis.make_estimator(e))
    out = []
    for j, b in enumerate(batches):
      given = sets(b)
      ci = arm.update(given, case["delta"])
      sets.untouched("the arm")
      out += [(f"interval {j}", ci), (f"published interval {j}", arm.ci),
              (f"effect {j}", arm.ate), (f"variance {j}", arm.var_est),
              (f"units {j}", arm.get_num_units())]
      if sets.reps and case["overwrite"] and given.cov.flags.writeable:
        # The caller uses its arrays for something else.
        given.cov[...] = 9
        given.exp[...] = 1
        given.rsp[...] = -5
        sets.given.pop()
        sets.given.append((given, (given.cov, given.exp, given.rsp),
                           tuple(a.copy() for a in (given.cov, given.exp, given.rsp))))
    return out

  what = f"{case['arm']} arm with {e['kind']}"
  if case["overwrite"]:
    what += " (data sets overwritten after their update)"
  twice(case, rec, compute, what, sum(len(b) for b in batches),
        tol=2e-2 if e["kind"] in nuis.WARM[:2] else 1e-5)
  rec.label(case["arm"], e["kind"], "overwritten" if case["overwrite"] else "kept")


def st_arm():
  return st.fixed_dictionaries(dict(
      e=nuis.st_estimator(ARM_KINDS), arm=st.sampled_from(["split", "split", "bootstrap"]),
      alg=st.sampled_from(["CHI2", "CLT"]), stable=st.booleans(), boots=st.sampled_from([2, 5]),
      first=st.one_of(nuis.st_data(min_t=12), nuis.st_data(max_n=6)),
      later=st.lists(nuis.st_data(min_t=0, max_n=20), max_size=3),
      whole=st.lists(st.tuples(st.booleans(), st.booleans()), min_size=4, max_size=4),
      overwrite=st.booleans(), delta=st.sampled_from([.05, .3]),
      reps=st_reps(), seed=st.integers(0, 2**31)))


# -------------------------------------------------------------------- bandits
def fn_bandit(case, rec):
  k, u = case["k"], case["units"]
  rounds = case["rounds"]
  n = u * (rounds + 3)
  d = 3
  rs = rng(case)
  cov = rs.randint(-2, 3, size=(n, d)).astype(float)
  t = (rs.rand(n) < .5) * 1.0
  y = t + cov.dot(rs.normal(size=d)) + rs.normal(size=n)
  y = np.round(3 * y) if case["whole"] else y
  full = data.ExpData(cov, t, y)
  tr = [data.get_identity_fn(), data.get_remove_coordinates_fn(0),
        data.get_coordinate_mask_fn([2, 0]), data.get_coordinate_mask_fn([1])]
  dims = [3, 2, 2, 1]

  def compute(sets):
    made = []
    for i in range(k):
      j = (i + case["seed"]) % len(tr)
      eta = parameters.AIPW(dims[j], nuis.LearnResponse(1.0 + i), nuis.LearnPropensity(2.0),
                            min_units=2)
      made.append(arms.SampleSplittingArm(f"arm{i}", eta, tr[j],
                                          stable_splits=case["stable"],
                                          **dict(armkit.BASE, cost=1 + i % 2,
                                                 ci_algorithm=armkit.ALGS[case["alg"]])))
    bandit = banditkit.ALGOS[case["algo"]](
        made, data.DataGenerator("none"), units_per_round=u,
        sample_limit=k * u * rounds if case["algo"] != "lucb" else u * rounds)
    res = bandit.run(sets(full))
    out = [("cumulative samples", res.cum_samples)]
    for name in ("lcb_by_arm", "ucb_by_arm", "var_est_by_arm", "samples_by_arm"):
      out += [(f"{name} of {a.name}", getattr(res, name)[a]) for a in made]
    out += [("returned arms", sorted(made.index(a) for a in res.best_arm))]
    return out

  twice(case, rec, compute, case["algo"], n, tol=1e-6)
  rec.label(case["algo"])


def st_bandit():
  return st.fixed_dictionaries(dict(
      algo=st.sampled_from(sorted(banditkit.ALGOS)), k=st.integers(2, 4),
      units=st.sampled_from([20, 30, 60]), rounds=st.integers(2, 8),
      alg=st.sampled_from(["CHI2", "CLT"]), stable=st.booleans(), whole=st.booleans(),
      reps=st_reps(), seed=st.integers(0, 2**31)))


SUBS = [Sub("split", st_split, fn_split, 1500),
        Sub("estimator", st_estimator, fn_estimator, 900),
        Sub("arm", st_arm, fn_arm, 600),
        Sub("bandit", st_bandit, fn_bandit, 240)]
