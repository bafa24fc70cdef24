"""Nuisance estimators have a clean fit / score / reset life cycle."""
import numpy as np
from hypothesis import strategies as st

from vlib import nuis, repo
from vlib.core import Sub, arr, close, raises, require

data, parameters = repo.load("data", "parameters")
ID = "N05"
RULE = ("history: sequences of fit (sufficient, at the boundary, insufficient, empty, wrong "
        "dimension), score, reset, activity of another instance and set_to_truth on every "
        "estimator kind, against a new instance fitted once on the last sufficient data; "
        "non-trivial = a score was compared after at least two other operations. rows: permutations "
        "and subsets of the scored and fitted rows; non-trivial = the scores differ "
        "between units")


def mk(e, spec, sizes, extra=0):
  s = dict(spec)
  s["n0"], s["n1"] = sizes
  return nuis.make_data(s, e["d"] + extra, discrete=e["kind"].startswith("Front"))


def calc(eta, ev, what):
  c = nuis.copy_data(ev)
  s = arr(eta.calculate_score(ev), what, shape=(len(ev),))
  require(nuis.unchanged(ev, c), "scoring changed the data")
  return s


def fn_history(case, rec):
  e = dict(case["e"])
  kind = e["kind"]
  if kind == "LinearRegressionParameter" and case["alone"]:
    e["d"] = 0  # a regression on the exposure alone
    rec.label("no covariates")
  eta = nuis.make_estimator(e)
  good, warm, ready, fits, truth = None, False, False, 0, False
  ok = lambda what: require(bool(eta.has_enough_samples()) == ready,
                            f"{kind}: has_enough_samples() is wrong {what}",
                            got=eta.has_enough_samples(), ops=[o["op"] for o in case["ops"]])
  ok("for a new estimator")
  events = resets = 0
  last_fit = last_ev = None  # objects given before; arms extend them in place
  for op in case["ops"] + [dict(op="score", data=case["final"])]:
    o = op["op"]
    events += o != "score"
    if o == "fit":
      n0, n1 = nuis.boundary_sizes(e, op["pick"])
      d = mk(e, op["data"], (n0, n1))
      if op["again"] and last_fit is not None:
        last_fit.append(d)
        d = last_fit
        n0, n1 = int((d.exp == 0).sum()), int((d.exp == 1).sum())
        rec.label("fit on an extended data set")
      last_fit = d
      c = nuis.copy_data(d)
      eta.fit(d)
      require(nuis.unchanged(d, c), "fitting changed the data")
      if nuis.sufficient(e, n0, n1):
        warm = ready
        good, ready, truth = c, True, False
        fits += 1
      ok(f"after a fit on {n0} control and {n1} treated units")
      rec.label("fit " + op["pick"])
    elif o == "badfit":
      extra = op["extra"] if e["d"] + op["extra"] >= 0 else 1  # also without covariates
      d = mk(e, op["data"], nuis.boundary_sizes(e, "more"), extra)
      raises(ValueError, lambda: eta.fit(d), f"{kind}: fit with {extra:+d} feature(s)")
      ok("after a rejected fit")
    elif o == "badscore":
      if ready:
        extra = op["extra"] if e["d"] + op["extra"] >= 0 else 1
        d = mk(e, op["data"], (3, 2), extra)
        raises(ValueError, lambda: eta.calculate_score(d),
               f"{kind}: score with {extra:+d} feature(s)")
    elif o == "grow":
      # The data set grows without being fitted again.
      if last_fit is not None:
        last_fit.append(mk(e, op["data"], (2, 3)))
      ok("after the data set was extended")
    elif o == "reset":
      eta.reset()
      resets += 1
      good, warm, ready, truth = None, False, False, False
      ok("after a reset")
    elif o == "other":
      e2 = dict(e)
      other = nuis.make_estimator(e2)
      require(not other.has_enough_samples(), f"{kind}: a second new instance is ready")
      d = mk(e2, op["data"], (12, 9))
      other.fit(d)
      calc(other, d, "other score")
    elif o == "truth":
      if kind in ("AIPWLinearLogistic", "LinearParameterBinaryTreatment"):
        rs = np.random.RandomState(op["data"]["s"])
        eta.set_to_truth(data.LinearDataGenerator(
            "g", e["d"], rs.normal(size=e["d"]), 1.0, gamma=rs.normal(size=e["d"])))
        good, ready, truth = None, True, True
        ok("after set_to_truth")
    elif o == "score":
      ev = mk(e, op["data"], (op["data"]["n0"], op["data"]["n1"]))
      if op.get("again") and last_ev is not None:
        last_ev.append(ev)
        ev = last_ev
        rec.label("score of an extended data set")
      last_ev = ev
      if not ready:
        if kind != "LinearRegressionParameter":
          s = calc(eta, ev, f"{kind}: score before a sufficient fit")
          require(np.isnan(s).all(), f"{kind}: scores are defined before a sufficient fit",
                  got=s[:5])
          rec.label("scored before ready")
        continue
      if not len(ev):  # sklearn predictors reject empty tables
        continue
      if truth:
        calc(eta, ev, "score under the truth")
        continue
      got = calc(eta, ev, f"{kind}: score")
      ref = nuis.make_estimator(e)
      ref.fit(good)
      want = calc(ref, ev, f"{kind}: score of a new instance")
      scale = 1 + max(np.abs(want).max(), np.abs(ev.rsp).max(), np.abs(good.rsp).max())
      loose = warm and kind in nuis.WARM
      tol = 3e-3 / nuis.overlap(e) if loose else 1e-9
      close(got / scale, want / scale, f"{kind}: score versus a new instance fitted on the "
            "same data", rtol=0, atol=tol, ops=[o2["op"] for o2 in case["ops"]])
      if op.get("again") and len(good):
        # The same object with other content: the scores are those of the content.
        v = op["data"]["s"] % 3
        old = nuis.copy_data(ev)
        what = ("responses", "exposures", "covariates")[v]
        if v == 0:
          ev.rsp += ev.rsp.dtype.type(3)
        elif v == 1:
          ev.exp[:] = 1 - ev.exp
        else:
          ev.cov[:] = ev.cov[::-1].copy()
        s2 = calc(eta, ev, f"{kind}: score after its {what} changed")
        w2 = calc(ref, nuis.copy_data(ev), f"{kind}: score of a new instance")
        scale2 = scale + np.abs(w2).max()
        close(s2 / scale2, w2 / scale2, f"{kind}: score of a data set whose {what} were changed "
              "in place", rtol=0, atol=tol)
        for a, b in ((ev.cov, old.cov), (ev.exp, old.exp), (ev.rsp, old.rsp)):
          a[:] = b
        rec.label(f"{what} changed in place")
      if not loose:
        close(calc(eta, ev, "repeated score"), got, f"{kind}: scored again", rtol=1e-12)
      rec.nontrivial(events > 1, "compared after several events")
      if fits > 1:
        rec.label("compared after several sufficient fits")
      if resets:
        rec.label("compared after a reset")
  rec.label(kind)


def st_history():
  op = st.fixed_dictionaries(dict(
      op=st.sampled_from(["fit", "fit", "fit", "score", "score", "reset", "badfit",
                          "badscore", "other", "truth", "grow"]), again=st.booleans(),
      pick=st.sampled_from(nuis.PICKS), extra=st.sampled_from([1, -1]),
      data=nuis.st_data(max_n=12)))
  return st.fixed_dictionaries(dict(
      e=nuis.st_estimator(), ops=st.lists(op, min_size=2, max_size=12),
      final=nuis.st_data(max_n=12, min_t=1), alone=st.booleans(), seed=st.just(0)))


def fn_rows(case, rec):
  e = case["e"]
  kind = e["kind"]
  fit = mk(e, case["fit"], (case["n0"], case["n1"]))
  ev = mk(e, case["ev"], (case["ev"]["n0"], case["ev"]["n1"]))
  rs = np.random.RandomState(case["seed"])
  eta = nuis.make_estimator(e)
  eta.fit(fit)
  s = calc(eta, ev, "score")
  scale = 1 + np.abs(s).max()
  p = rs.permutation(len(ev))
  close(calc(eta, ev[p], "score") / scale, s[p] / scale,
        f"{kind}: scores of reordered units", rtol=0, atol=1e-10)
  m = rs.rand(len(ev)) < .4
  m[rs.randint(len(ev))] = True
  close(calc(eta, ev[m], "score") / scale, s[m] / scale,
        f"{kind}: scores of a subset of the units", rtol=0, atol=1e-10)
  i = rs.randint(len(ev))
  close(calc(eta, ev[i:i + 1], "score") / scale, s[i:i + 1] / scale,
        f"{kind}: score of a single unit", rtol=0, atol=1e-10)
  if kind != "AIPWKernelGradientBoosting":
    eta2 = nuis.make_estimator(e)
    eta2.fit(fit[rs.permutation(len(fit))])
    tol = 3e-3 / nuis.overlap(e) if kind in nuis.WARM else 1e-8
    close(calc(eta2, ev, "score") / scale, s / scale,
          f"{kind}: scores after fitting the same rows in another order", rtol=0, atol=tol)
  rec.label(kind)
  rec.nontrivial(bool(np.ptp(s) > 0))


def st_rows():
  return st.fixed_dictionaries(dict(
      e=nuis.st_estimator(), fit=nuis.st_data(), n0=st.integers(5, 15),
      n1=st.integers(5, 15), ev=nuis.st_data(min_t=1, max_n=20),
      seed=st.integers(0, 2**31)))


SUBS = [
    Sub("history", st_history, fn_history, 2000),
    Sub("rows", st_rows, fn_rows, 700),
]
