"""Published intervals cover the truth and effects are unbiased."""
import numpy as np
import scipy.stats
from hypothesis import strategies as st

from vlib import armkit, repo
from vlib.core import Sub, require, zcheck

data, parameters, arms = repo.load("data", "parameters", "arms")

ID = "A06"
RULE = ("coverage: an arm is run 250 times on new units through the same history of updates; "
        "its nuisance parameter memorises the units it was fitted on (their scores have "
        "little variance), all other scores are independent draws of a known distribution; "
        "at every update the share of intervals that contain the true variance is compared "
        "with the stated probability (not for skewed scores), and the errors of the effect with their standard "
        "error, and the variance estimates with their known mean and standard error; "
        "non-trivial = the interval is defined at two or more updates")
RUNS = 250


class Memoriser(parameters.NuisanceParameter):
  """Scores of units seen in fitting are nearly constant."""

  def __init__(self, mean):
    self.mean = mean
    self.seen = np.zeros(0)

  def fit(self, d):
    self.seen = np.array(d.cov[:, 0])

  def calculate_score(self, d):
    return np.where(np.isin(d.cov[:, 0], self.seen), self.mean + .1 * (d.rsp - self.mean),
                    d.rsp)

  def has_enough_samples(self):
    return True

  def calculate_cs_width(self, delta, sub_g, rho):
    return 0.0

  def reset(self):
    self.seen = np.zeros(0)


KURTOSIS = {"normal": 0, "uniform": -1.2, "exponential": 6,
            "rare": (1 - 6 * .01 * .99) / (.01 * .99),
            "two-point": (1 - 6 * .2 * .8) / (.2 * .8)}


def draw(rs, kind, n):
  """Draws with mean 0 and variance 1."""
  if kind == "normal":
    return rs.normal(size=n)
  if kind == "uniform":
    return rs.uniform(-np.sqrt(3), np.sqrt(3), size=n)
  if kind == "exponential":
    return rs.exponential(size=n) - 1
  if kind == "rare":
    return rs.choice([-np.sqrt(.01 / .99), np.sqrt(99)], p=[.99, .01], size=n)
  return rs.choice([-.5, 2.0], p=[.8, .2], size=n)  # two-point


def probability(case, t, n):
  """Bounds for the actual probability of containing the variance at update t."""
  delta = case["delta"]
  if case["alg"] == "CHI2":  # exact up to the divisor n or n - 1 of the variance
    q = scipy.stats.chi2.ppf([delta / 2, 1 - delta / 2], n - 1) * n / (n - 1)
    p = np.diff(scipy.stats.chi2.cdf(q, n - 1))[0]
    return min(p, 1 - delta), max(p, 1 - delta)
  if case["alg"] == "CLT":
    p = 1 - delta / (t + 1)**2
    return p - .03, min(p + .03, 1)
  return 1 - delta, 1  # conservative


def fn_coverage(case, rec):
  rs = np.random.RandomState([case["seed"], 3])
  sizes = case["sizes"]
  sd, mean = case["sd"], case["mean"]
  eta = Memoriser(mean)
  make = lambda: armkit.make_arm(dict(case, settings=dict(
      burn_in=2, sub_gscale=1, tau_bound=max(1, abs(mean)))), eta, data.get_identity_fn())
  arm = make()
  inside = np.zeros((RUNS, len(sizes)), bool)
  err = np.zeros((RUNS, len(sizes)))
  var = np.zeros((RUNS, len(sizes)))
  held = np.cumsum(sizes) // 2
  for r in range(RUNS):
    if case["reuse"]:
      arm.reset()
    else:
      eta.reset()
      arm = make()
    y = mean + sd * draw(rs, case["dist"], sum(sizes))
    i = 0
    for t, n in enumerate(sizes):
      ids = np.arange(i, i + n)
      arm.update(data.ExpData(np.c_[ids, ids].astype(float), ids % 2, y[ids]), case["delta"])
      lo, hi = arm.ci
      inside[r, t] = lo <= sd**2 <= hi
      err[r, t] = arm.ate - mean
      var[r, t] = arm.var_est / sd**2
      i += n
  for t in range(len(sizes)):
    what = f"{case['alg']}, update {t}"
    p, q = probability(case, t, held[t])
    got = int(inside[:, t].sum())
    lo = scipy.stats.binom.ppf(1e-10, RUNS, p)
    hi = scipy.stats.binom.ppf(1 - 1e-10, RUNS, q)
    skewed = case["dist"] in ("exponential", "rare")  # far from the limit
    require(skewed or lo <= got <= hi, f"{what}: {got} of {RUNS} intervals contain the variance",
            want=(lo, hi), stated=1 - case["delta"])
    zcheck(err[:, t].sum(), 0, RUNS * sd**2 / held[t], f"{what}: sum of the effect's errors")
    m = held[t]  # the mean squared deviation of m scores from their mean
    zcheck(var[:, t].sum(), RUNS * (m - 1) / m,
           RUNS * ((m - 1) / m)**2 * (2 / (m - 1) + KURTOSIS[case["dist"]] / m),
           f"{what}: sum of the variance estimates in units of the true variance",
           z=9 if case["dist"] == "rare" else 7)
    if held[t] >= 20:
      # Squared errors: chi-square-like, kurtosis of the mean is close to normal.
      z2 = (err[:, t]**2).sum() / (sd**2 / held[t])
      zcheck(z2, RUNS, 3 * RUNS, f"{what}: squared errors of the effect in units of the "
             "squared standard error")
  rec.label(case["alg"], case["dist"], "stable" if case["stable"] else "resplit",
            "one arm, reset" if case["reuse"] else "new arms")
  rec.nontrivial(len(sizes) > 1)


def st_coverage():
  def more(alg):
    if alg == "CHI2":
      sizes = st.lists(st.integers(5, 40).map(lambda v: 2 * v), min_size=1, max_size=4)
      sizes = st.one_of(sizes, sizes, st.lists(st.sampled_from([8, 10, 12]), min_size=1,
                                               max_size=2))
      dist = st.just("normal")
    elif alg == "CLT":
      sizes = st.lists(st.sampled_from([600, 800, 1000]), min_size=1, max_size=3)
      dist = st.sampled_from(["normal", "uniform", "two-point", "exponential", "rare"])
    else:
      sizes = st.lists(st.integers(5, 100).map(lambda v: 2 * v), min_size=1, max_size=4)
      dist = st.sampled_from(["normal", "uniform"])
    return st.fixed_dictionaries(dict(
        alg=st.just(alg), sizes=sizes, dist=dist, stable=st.booleans(), reuse=st.booleans(),
        delta=st.sampled_from([.05, .1, .2, .3, .5]),
        sd=st.sampled_from([.25, .5, 1] if alg == "FINITE" else [.1, 1, 3, 40]),
        mean=st.sampled_from([0, .5, 1] if alg == "FINITE" else [0, -2, 5]),
        seed=st.integers(0, 2**31)))
  return st.sampled_from(["CHI2", "CHI2", "CLT", "FINITE"]).flatmap(more)


SUBS = [Sub("coverage", st_coverage, fn_coverage, 120, seconds=60)]
