"""Nuisance confidence widths are sound, monotone numbers."""
import numpy as np
from hypothesis import strategies as st

from vlib import nuis, repo
from vlib.core import Sub, Violation, near, require

data, parameters = repo.load("data", "parameters")
ID = "N06"
RULE = ("value: width of the last fitted data against the eigenvalue form of the "
        "documented radius, and order relations under smaller error probability, smaller "
        "overlap limit and replicated data; designs include collinear, constant, integer "
        "and too few rows; non-trivial = the width is finite (the rank-deficient cases are "
        "labelled 'singular'). wide: 10 to 160 covariates of scales .001 to 100 against the same "
        "form; non-trivial = the design is regular")
KINDS = ["AIPW", "AIPWLinearLogistic", "AIPWKernelRidgeLogistic", "FrontDoorLinearFiniteZ",
         "FrontDoorLinearFiniteZ"]


def real(v, what):
  """A non-negative real number or +inf."""
  a = np.asarray(v)
  if a.ndim != 0 or a.dtype.kind not in "fiu":
    raise Violation(f"{what}: not a real scalar: {v!r}")
  a = float(a)
  require(not np.isnan(a) and a >= 0, f"{what}: not a non-negative number", got=a)
  return a


def reference(x, ov, delta, sub_g, rho, front):
  """(width, lower bound of the width allowing for rounding, is singular)."""
  n, d = x.shape
  lam = np.linalg.eigvalsh(x.T.dot(x))
  lam = np.clip(lam, 0, None)
  dl = delta / 3 if front else delta
  radius = np.sqrt(sub_g * (np.log1p(sub_g * lam / rho).sum() - 2 * np.log(dl)))
  c = rho / sub_g
  mu = lambda l: radius / np.sqrt(l * l / (l + c)) if l > 0 else np.inf
  singular = lam[0] <= 1e-7 * max(lam[-1], 1e-300)
  m, low = mu(lam[0]), mu(lam[0] + 1e-6 * lam[-1] + 1e-12)
  if not front:
    k = 1 / ov - 1
    return m * k, low * k, singular
  dt = dl / 3
  t = np.sqrt(1 / n * (.25 + rho / n) * np.log((n / 4 + rho) / (dt * dt * rho)))
  k = 1 + 2 * (1 / ov - 1)
  return m * k + t * (1 / ov - 1), low * k, singular


def design(d, front):
  return np.c_[d.exp, d.cov].astype(float) if front else d.cov.astype(float)


def fit(case, d, ov=None):
  e = dict(case["e"], units=1, ov=case["e"]["ov"] if ov is None else ov)
  eta = nuis.make_estimator(e)
  eta.fit(d)
  return eta


def fn_value(case, rec):
  e = case["e"]
  front = e["kind"].startswith("Front")
  ov = nuis.overlap(e)
  mk = lambda s: nuis.make_data(s, e["d"], discrete=front and s["kind"] in (
      "normal", "collinear"))
  d = mk(case["fit"])
  delta, sg, rho = case["delta"], case["sg"], case["rho"]
  eta = nuis.make_estimator(dict(e, units=1))
  for f in case["before"]:
    # Earlier data of another or of the same size.
    eta.fit(mk(f if not case["samesize"] else dict(
        f, n0=case["fit"]["n0"], n1=case["fit"]["n1"])))
    if case["between"]:
      real(eta.calculate_cs_width(delta, sub_g=sg, rho=rho), "earlier width")
  if case["grow"] and len(d) > 3:
    # As in the arms, a data set is fitted, extended in place and fitted again.
    part, rest = d.k_fold(2)
    eta.fit(part)
    real(eta.calculate_cs_width(delta, sub_g=sg, rho=rho), "width before extending the data")
    part.append(rest)
    d = part
    rec.label("extended data")
  eta.fit(d)
  if case["few"] and min(d.exp.sum(), len(d) - d.exp.sum()) >= 1:
    # One more data set, without treated or without control units. The estimator may go by
    # either data set, but not by a mixture.
    few = mk(dict(case["fit"], kind="normal", s=case["fit"]["s"] + 1, skew="",
                  **{case["few"]: 0}))
    twin = fit(case, d)
    twin.fit(few)
    got = real(twin.calculate_cs_width(delta, sub_g=sg, rho=rho), "width after too few units")
    refs = [reference(design(q, front), ov, delta, sg, rho, front) for q in (few, d)]
    if len(few) > 1 and not any(q[2] for q in refs) and np.isfinite(got):
      require(any(near(got, q[0], 1e-5) for q in refs), "width after a data set with too few "
              "treated or control units", got=got, new=refs[0][0], old=refs[1][0])
      rec.label("too few units last")
  w = real(eta.calculate_cs_width(delta, sub_g=sg, rho=rho), "width")
  w2 = real(eta.calculate_cs_width(delta, sub_g=sg, rho=rho), "width asked again")
  require(w == w2, "the width changed when asked again", first=w, second=w2)
  want, low, singular = reference(design(d, front), ov, delta, sg, rho, front)
  info = dict(kind=e["kind"], n=len(d), d=e["d"], delta=delta, sub_g=sg, rho=rho, overlap=ov)
  boundary_inf = front and len(d) <= (delta / 9)**2 / 4 / rho
  if singular:
    rec.label("singular")
    require(w >= .99 * low, "width of a singular design is too small", got=w, low=low, **info)
  elif not (boundary_inf and w == np.inf):
    require(near(w, want, 1e-5), "width", got=w, want=want, **info)
  # Order relations.
  tol = 1 + 1e-6
  if rho >= .01 and not singular:
    small = real(eta.calculate_cs_width(delta * case["shrink"], sub_g=sg, rho=rho),
                 "width at a smaller error probability")
    require(small * tol >= w, "a smaller error probability gave a narrower width",
            smaller=small, width=w, **info)
    lower = real(fit(case, d, ov * case["shrink"]).calculate_cs_width(
        delta, sub_g=sg, rho=rho), "width at a smaller overlap limit")
    for got, (dl, o) in ((small, (delta * case["shrink"], ov)),
                         (lower, (delta, ov * case["shrink"]))):
      if not np.isinf(got) or not front:
        ref = reference(design(d, front), o, dl, sg, rho, front)[0]
        require(near(got, ref, 1e-5), "width at smaller settings", got=got,
                want=ref, **dict(info, delta=dl, overlap=o))
    require(lower * tol >= w, "a smaller overlap limit gave a narrower width",
            smaller=lower, width=w, **info)
    k = case["rep"]
    rep = data.ExpData(np.tile(d.cov, (k, 1)), np.tile(d.exp, k), np.tile(d.rsp, k))
    more = real(fit(case, rep).calculate_cs_width(delta, sub_g=sg, rho=rho),
                "width of replicated data")
    require(more <= w * tol, f"replicating the data {k} times widened the sequence",
            replicated=more, width=w, **info)
  rec.label(e["kind"], case["fit"]["kind"])
  rec.nontrivial(np.isfinite(w) and not singular)


def st_value():
  return st.fixed_dictionaries(dict(
      e=nuis.st_estimator(KINDS), fit=nuis.st_data(min_t=1),
      before=st.lists(nuis.st_data(min_t=1, max_n=20), max_size=2), between=st.booleans(),
      samesize=st.booleans(), few=st.sampled_from(["", "n0", "n1"]), grow=st.booleans(),
      delta=st.sampled_from([1e-6, .001, .025, .1, .5, .9, .99]),
      sg=st.sampled_from([.1, .5, 1, 2, 8]), rho=st.sampled_from([.001, .01, .1, .1, 1, 10]),
      shrink=st.sampled_from([.99, .5, .1, .001]), rep=st.integers(2, 6), seed=st.just(0)))


def fn_wide(case, rec):
  """Many covariates of any scale: products of eigenvalues leave the range of floats."""
  front, dim = case["front"], case["d"]
  rs = np.random.RandomState([case["seed"] % 2**31, 3])
  n = case["rows"] * dim
  x = case["scale"] * rs.normal(size=(n, dim))
  t = rs.permutation(np.arange(n) % 2)
  d = data.ExpData(x, t, x[:, 0] + t)
  kind = "FrontDoorLinearFiniteZ" if front else "AIPWLinearLogistic"
  ov, delta, sg, rho = case["ov"], case["delta"], case["sg"], case["rho"]
  eta = getattr(parameters, kind)(dim, min_overlap=ov)
  eta.fit(d)
  w = real(eta.calculate_cs_width(delta, sub_g=sg, rho=rho), "width")
  want, _, singular = reference(design(d, front), ov, delta, sg, rho, front)
  # For the front door, the exposure is on another scale than the covariates.
  require(singular or near(w, want, 1e-5), "width", got=w, want=want, kind=kind, n=n, d=dim,
          delta=delta, sub_g=sg, rho=rho, overlap=ov)
  if not singular:
    small = real(eta.calculate_cs_width(delta / 10, sub_g=sg, rho=rho), "width")
    require(small * (1 + 1e-6) >= w, "a smaller error probability gave a narrower width",
            smaller=small, width=w)
  rec.label(kind, "singular" if singular else "regular")
  rec.nontrivial(not singular)


def st_wide():
  return st.fixed_dictionaries(dict(
      front=st.sampled_from([False, False, True]), d=st.sampled_from([10, 30, 60, 100, 160]),
      rows=st.integers(2, 5), scale=st.sampled_from([.001, .03, 1, 10, 100]),
      ov=st.sampled_from([.05, .25]), delta=st.sampled_from([1e-6, .05, .5]),
      sg=st.sampled_from([.1, 1, 8]), rho=st.sampled_from([.01, .1, 1, 10]),
      seed=st.integers(0, 2**31)))


SUBS = [Sub("value", st_value, fn_value, 2000),
        Sub("wide", st_wide, fn_wide, 160)]
