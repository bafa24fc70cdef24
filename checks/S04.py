"""Example models report their true moments and effect."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import repo, stats
from vlib.core import Sub, arr, close, require, scalar, zcheck

data, scm, example_scm = repo.load("data", "scm", "example_scm")
ID = "S04"
RULE = ("a random instance of one of the two example models (drawn from the case's "
        "seed); every published moment, the effect and the published coefficients are "
        "compared with 120000 sampled units, with the interventional effect and with "
        "the closed form of the coefficients; "
        "non-trivial = always (each instance has its own parameters)")
ASSUMPTIONS = ["sampling error: thresholds of 7 standard errors, so deviations of a mechanism "
               "from its published coefficient below about 2% of a standard deviation are "
               "not seen; published moments are compared exactly with those that follow "
               "from the coefficients"]
N = 120000


def mean_check(v, want, what):
  zcheck(v.mean(), want, v.var() / len(v), what + " (mean)")


def var_check(v, want, mu, what):
  q = (v - mu)**2
  zcheck(q.mean(), want, q.var() / len(v), what + " (variance)")


def closed_form(kind, par):
  """The moments that follow from the published coefficients."""
  g = lambda v: 1 / (1 + math.exp(-v))
  want = {}
  if kind == "back_door_scm":
    pz, tau, beta = par["mu_z"], par["tau"], par["beta"]
    cells = [(z, x, pz if z else 1 - pz,
              abs(1 - x - (.5 + par["alpha"] * z)), tau * x + beta * z)
             for z in (0, 1) for x in (0, 1)]
    cells = [(z, x, a * b, m) for z, x, a, b, m in cells]
  else:
    pu, ga, a2 = par["mu_u"], par["gamma"], par["alpha_2"]
    want["mu_u"], want["var_u"] = pu, pu * (1 - pu)
    want["tau"] = ga * (g(par["beta"]) - g(0))
    cells = []
    for u in (0, 1):
      for x in (0, 1):
        for z in (0, 1):
          pr = (pu if u else 1 - pu) * abs(1 - x - g(par["alpha_1"] * u)) * abs(
              1 - z - g(par["beta"] * x))
          cells.append((z, x, pr, ga * z + a2 * u))
  for k, i in (("z", 0), ("x", 1), ("y", 3)):
    mu = sum(c[2] * c[i] for c in cells)
    want["mu_" + k] = mu
    want["var_" + k] = sum(c[2] * (c[i] - mu)**2 for c in cells) + (k == "y")
  return want


def fn(case, rec):
  kind = case["model"]
  make = getattr(example_scm, kind)
  model, par = make()
  par = {k: scalar(v, f"published {k}") for k, v in par.items()}
  if case["again"]:
    # A later instance must not influence the first one.
    make()
    rec.label("second instance created")
  o = model.generate(N)
  d = 1 if kind == "back_door_scm" else 2
  cov = arr(o.cov, "cov", shape=(N, d))
  x, y = arr(o.exp, "exp", shape=(N,)), arr(o.rsp, "rsp", shape=(N,))
  require(np.all((x == 0) | (x == 1)), "treatment not binary")
  mean_check(x, par["mu_x"], kind + " mu_x")
  var_check(x, par["var_x"], par["mu_x"], kind + " var_x")
  mean_check(y, par["mu_y"], kind + " mu_y")
  var_check(y, par["var_y"], par["mu_y"], kind + " var_y")
  z = cov[:, -1]
  mean_check(z, par["mu_z"], kind + " mu_z")
  var_check(z, par["var_z"], par["mu_z"], kind + " var_z")
  if d == 2:
    u = cov[:, 0]
    mean_check(u, par["mu_u"], kind + " mu_u")
    var_check(u, par["var_u"], par["mu_u"], kind + " var_u")
  # The published coefficients reproduce the response up to unit noise.
  if d == 1:
    res = y - par["tau"] * x - par["beta"] * z
    spread = par["beta"]**2 / 4
    p1 = .5 + par["alpha"] * z
  else:
    res = y - par["gamma"] * z - par["alpha_2"] * u
    spread = (abs(par["gamma"]) + abs(par["alpha_2"]))**2 / 4
    p1 = 1 / (1 + np.exp(-par["alpha_1"] * u))
    pz = 1 / (1 + np.exp(-par["beta"] * x))
    stats.white(z - pz, kind + " mediators", pz * (1 - pz))
    for w in (np.ones(N), x, u):
      zcheck((w * (z - pz)).sum(), 0, (w * w * pz * (1 - pz)).sum(),
             kind + " mediator given treatment")
  for w in (np.ones(N), x, z):
    zcheck((w * res).sum(), 0, (w * w).sum(), kind + " response residual")
  zcheck((res**2 - 1).sum(), 0, 2 * N, kind + " response noise variance", z=8)
  for w in (np.ones(N), cov[:, 0]):
    zcheck((w * (x - p1)).sum(), 0, (w * w * p1 * (1 - p1)).sum(),
           kind + " treatment given its parent")
  stats.white(res, kind + " response noise")
  stats.white(x - p1, kind + " treatments", p1 * (1 - p1))
  first = par["mu_z" if d == 1 else "mu_u"]
  stats.white(cov[:, 0] - first, kind + " first covariate", first * (1 - first))
  eff = scalar(model.compute_treatment_effect(N), "treatment effect")
  zcheck(eff, par["tau"], 2 * (1 + spread) / N, kind + " tau")
  # The sampled mechanisms agree with the published coefficients, so the moments
  # are exactly those of the formulas.
  for k, v in closed_form(kind, par).items():
    close(par[k], v, f"{kind} published {k} against its coefficients", rtol=1e-6)
  rec.label(kind)
  rec.nontrivial()


def strategy():
  return st.fixed_dictionaries(dict(
      model=st.sampled_from(["back_door_scm", "frontdoor_scm"]),
      again=st.booleans(), seed=st.integers(0, 2**32 - 1)))


SUBS = [Sub("moments", strategy, fn, 240)]
