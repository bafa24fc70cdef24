"""Update histories for arms, with recording nuisance parameters."""
import numpy as np
from hypothesis import strategies as st

from vlib import nuis, repo
from vlib.core import Violation, arr, interval, require, scalar

data, parameters, arms = repo.load("data", "parameters", "arms")
CI = arms.CIAlgorithm
D = 3  # covariates of the raw data


class Pool:
  """All units of a case: unit i has fixed covariates, exposure and response i."""

  def __init__(self, n, seed):
    rs = np.random.RandomState([seed, 5])
    self.cov = np.c_[np.arange(n) * 1.0, rs.normal(size=(n, D - 1))]
    self.exp = rs.randint(0, 2, size=n)
    self.n = n

  def take(self, ids):
    ids = np.asarray(ids, dtype=int)
    return data.ExpData(self.cov[ids].copy(), self.exp[ids].copy(), ids.astype(float))


TRANSFORMS = ["identity", "remove0", "remove-1", "mask20", "mask1", "custom"]


def transformer(kind):
  if kind == "identity":
    return data.get_identity_fn(), lambda c: c
  if kind.startswith("remove"):
    i = int(kind[6:])
    return data.get_remove_coordinates_fn(i), lambda c: np.delete(c, i, axis=1)
  if kind.startswith("mask"):
    ix = [int(q) for q in kind[4:]]
    return data.get_coordinate_mask_fn(ix), lambda c: c[:, ix]
  f = lambda c: np.c_[c[:, 1] * 2 + c[:, 0], c[:, 2]**2]
  return lambda d: data.ExpData(f(d.cov), d.exp, d.rsp), f


def score_fn(ids, digest, case):
  """The stub score of units under a fit with the given digest."""
  ids = np.asarray(ids, dtype=float)
  kind = case["scores"]
  base = np.sin(ids * 12.9898 + digest * .7) * 3 + np.cos(ids * 4.1 - digest)
  if kind == "const":
    return np.full(len(ids), 2.0 + digest)
  if kind == "big":
    return base * 1e4 + 1e6
  if kind == "offset":
    return base + 1e7
  if kind == "small":
    return base * 1e-3
  if kind == "heavy":
    return np.where(np.mod(ids, 7) == 3, 50.0, base)
  if kind == "binary":
    return (base > 0) * 1.0
  return base


class RecorderEta(parameters.NuisanceParameter):
  """Records what it is given; scores depend on the unit and the last fit."""

  def __init__(self, pool, tcov, case):
    self.pool, self.tcov, self.case = pool, tcov, case
    self.calls = []
    self.last = None
    self.widths = []
    self.ready = False
    self.resets = 0
    self.fits = 0

  def ids(self, d, what):
    """The unit ids of d, checking that each row is that unit's row."""
    ids = arr(d.rsp, what + ": responses", ndim=1)
    n = len(ids)
    require(len(d) == n, what + ": length", length=len(d), rows=n)
    i = ids.astype(int)
    require(np.all(i == ids) and np.all((i >= 0) & (i < self.pool.n)),
            what + ": unknown responses", got=ids[:9])
    want = self.tcov(self.pool.cov[i])
    cov = arr(d.cov, what + ": covariates", shape=want.shape)
    require(np.array_equal(cov, want) and
            np.array_equal(arr(d.exp, what + ": exposures", shape=(n,)), self.pool.exp[i]),
            what + ": rows do not belong to their units")
    return tuple(sorted(i.tolist())), i

  def fit(self, d):
    key, _ = self.ids(d, "data given to fit")
    self.calls.append(("fit", key, None))
    self.fits += 1
    if len(key) >= self.case["need"]:
      self.last = key
      self.ready = True

  def digest(self):
    # A warm-started estimator also depends on the number of its fits.
    return self.digest_of(self.last) + (.1 * self.fits if self.case.get("warm") else 0)

  @staticmethod
  def digest_of(key):
    return (sum((j + 1)**2 for j in key) % 101) / 50 if key is not None else np.nan

  def transform(self, d):
    raise Violation("transform of the recorder was called")

  def calculate_score(self, d):
    key, i = self.ids(d, "data given to calculate_score")
    s = score_fn(i, self.digest(), self.case) if self.ready else np.full(len(i), np.nan)
    if self.case.get("bad") is not None and len(s):
      s = np.where(np.mod(i, 5) == 2, self.case["bad"], s)
    self.calls.append(("score", key, s.copy()))
    return s

  def has_enough_samples(self):
    return self.ready

  def calculate_cs_width(self, delta, sub_g, rho):
    self.widths.append((delta, sub_g, rho))
    return self.width(delta, sub_g, rho)

  def width(self, delta, sub_g, rho):
    w = self.case.get("width", 0)
    if w == "inf":
      return np.inf
    return w * np.sqrt(np.log(4 / delta)) * (1 + .1 * sub_g + .01 * rho)

  def set_to_truth(self, data_gen):
    pass

  def reset(self):
    self.last, self.ready = None, False
    self.resets += 1
    self.fits = 0


ALGS = {"CHI2": CI.CHI2, "CLT": CI.CLT, "FINITE": CI.FINITE_SAMPLE}
BASE = dict(sub_gscale=1, eta_sub_gscale=1, tau_bound=1, burn_in=2, rho=.1, cost=1)


def make_arm(case, eta, tr, alg=None):
  s = dict(BASE, **case.get("settings", {}))
  return arms.SampleSplittingArm(
      case.get("name", "arm"), eta, tr, ci_algorithm=ALGS[alg or case["alg"]],
      stable_splits=case["stable"], **s)


def sizes_to_ids(sizes):
  out, i = [], 0
  for s in sizes:
    out.append(list(range(i, i + s)))
    i += s
  return out


def st_sizes(max_len=8):
  short = st.lists(st.sampled_from([0, 1, 2, 3, 4, 5, 7, 8, 10, 13, 20]), min_size=1,
                   max_size=max_len)
  long = st.tuples(st.lists(st.integers(0, 5), min_size=1, max_size=5),
                   st.integers(3, 12)).map(lambda v: v[0] * v[1])
  large = st.lists(st.sampled_from([2, 9, 100, 257, 1001]), min_size=1, max_size=3)
  usual = st.one_of(short, short, short, short, long)
  return st.integers(0, 15).flatmap(lambda i: large if i == 15 else usual)


DELTAS = [1e-6, .001, .01, .05, .1, .3, .5, .9]


class FoldModel:
  """Follows the folds of an arm from the calls its nuisance parameter receives."""

  def __init__(self, stable):
    self.stable = stable
    self.all = []
    self.f0 = set()
    self.known = 0  # units whose fold is known to be fold 1

  def update(self, new_ids, calls, what="update"):
    """Checks the calls of one update; returns (fold 0, fold 1)."""
    self.all += list(new_ids)
    fits = [c for c in calls if c[0] == "fit"]
    require(fits, f"{what}: the nuisance parameter was not fitted")
    key = fits[0][1]
    f0 = set(key)
    require(len(f0) == len(key), f"{what}: a unit occurs twice in the fitting fold", got=key)
    everything = set(self.all)
    require(f0 <= everything, f"{what}: the fitting fold contains units never given",
            got=sorted(f0 - everything))
    f1 = everything - f0
    require(abs(len(f0) - len(f1)) <= 1,
            f"{what}: unbalanced folds of {len(f0)} and {len(f1)} units")
    if self.stable:
      new0 = f0 & set(new_ids)
      require(abs(2 * len(new0) - len(new_ids)) <= 1,
              f"{what}: {len(new0)} of {len(new_ids)} new units in the fitting fold")
      old0 = f0 - set(new_ids)
      require(old0 == self.f0, f"{what}: units changed fold",
              left=sorted(self.f0 - old0), joined=sorted(old0 - self.f0))
    elif len(new_ids) and len(everything) - len(set(new_ids)) >= 48:
      # 24 of 48 units keep their folds by chance once in 10^13 divisions.
      require(f0 - set(new_ids) != self.f0, f"{what}: nothing was divided afresh")
    self.f0 = f0
    return f0, f1


def check_calls(calls, f0, f1, what="update"):
  """Fits see exactly fold 0, scores only units of fold 1."""
  for op, key, _ in calls:
    want = f0 if op == "fit" else f1
    require(set(key) == want and len(key) == len(want) if op == "fit" else
            set(key) <= want,
            f"{what}: {op} was given the wrong units", got=sorted(key)[:30],
            want=sorted(want)[:30])


def state(arm):
  return dict(ci=tuple(arm.ci), ate=arm.ate, var=arm.var_est, pulls=arm.num_pulled,
              units=arm.get_num_units())


def same_value(a, b):
  if a is None or b is None:
    return a is b
  a, b = np.asarray(a, float), np.asarray(b, float)
  return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def same_state(a, b, what):
  for k in a:
    require(same_value(a[k], b[k]), f"{what}: {k} differs", got=a[k], want=b[k])


class Spy(parameters.NuisanceParameter):
  """Forwards to a real nuisance parameter, recording the units it is given."""

  def __init__(self, inner, ids_of):
    self.inner, self.ids_of = inner, ids_of
    self.calls = []
    self.widths = []

  def fit(self, d):
    self.calls.append(("fit", self.ids_of(d), None))
    return self.inner.fit(d)

  def calculate_score(self, d):
    s = self.inner.calculate_score(d)
    self.calls.append(("score", self.ids_of(d), s))
    return s

  def transform(self, d):
    return self.inner.transform(d)

  def has_enough_samples(self):
    return self.inner.has_enough_samples()

  def calculate_cs_width(self, delta, sub_g, rho):
    w = self.inner.calculate_cs_width(delta, sub_g=sub_g, rho=rho)
    self.widths.append((delta, sub_g, rho, w))
    return w

  def reset(self):
    self.inner.reset()

  def set_to_truth(self, data_gen):
    self.inner.set_to_truth(data_gen)


def real_pool(n, d, discrete, seed):
  """n units with unique responses and a map from responses to unit numbers."""
  rs = np.random.RandomState([seed, 21])
  cov = rs.randint(-1, 2, size=(n, d)).astype(float) if discrete else rs.normal(size=(n, d))
  t = (rs.rand(n) < .5).astype(int)
  y = 1.5 * t + cov.sum(axis=1) + rs.normal(size=n)
  full = data.ExpData(cov, t, y)
  index = {v: i for i, v in enumerate(y.tolist())}

  def ids_of(q):
    try:
      return tuple(sorted(index[v] for v in q.rsp.tolist()))
    except KeyError as e:
      raise Violation(f"the nuisance parameter was given an unknown response {e}") from None

  return full, ids_of
