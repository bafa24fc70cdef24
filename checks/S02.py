"""Treatment effects are interventional and leave the model intact."""
import math

import numpy as np
from hypothesis import strategies as st

from checks import S01
from vlib import dag, repo
from vlib.core import Sub, close, raises, require, scalar, tail, zcheck

data, scm = repo.load("data", "scm")
ID = "S02"
RULE = ("effect: a random DAG with deterministic recording mechanisms (interactions "
        "included); the effect is compared with an independent graph surgery, and later "
        "samples with the untouched graph; non-trivial = the response depends on the "
        "treatment or shares an ancestor with it. fault: the same with a mechanism that "
        "raises at a generated call; non-trivial = the fault happened. random: linear "
        "Gaussian models with confounding; non-trivial = confounded")


def descends(nodes, a, b):
  """b depends on a."""
  if a == b:
    return True
  return any(descends(nodes, a, p) for p in nodes[b]["parents"])


def setup(case):
  nodes = [dict(n) for n in case["nodes"]]
  k = len(nodes)
  t, y = case["t"] % k, case["y"] % k
  nodes[t]["dim"] = nodes[y]["dim"] = 0
  r = dag.Recorder(nodes)
  kw = S01.make(case, nodes, r)
  orig = dict(kw["cpds"])
  return nodes, k, t, y, r, kw, orig, scm.SCM(**kw)


def intact(m, kw, orig, nodes, t, y, cov, r, n, what):
  for f, g in orig.items():
    require(m.cpds[f] is g and kw["cpds"][f] is g, f"{what}: the mechanism of {f} was replaced")
  r.calls.clear()
  o = m.generate(n)
  want = dag.evaluate(nodes, n)
  require(sorted(c[0] for c in r.calls) == list(range(len(nodes))),
          f"{what}: not every mechanism is sampled any more")
  close(o.exp, want[t], what + ": treatment sampled afterwards")
  close(o.rsp, want[y], what + ": response sampled afterwards")
  close(o.cov, np.column_stack([want[i] for i in cov]), what + ": covariates sampled afterwards")


def fn_effect(case, rec):
  nodes, k, t, y, r, kw, orig, m = setup(case)
  cov = [i % k for i in case["cov"]]
  for n in case["sizes"]:
    got = scalar(m.compute_treatment_effect(n), "treatment effect")
    a, b = dag.evaluate(nodes, n, do=(t, 1))[y], dag.evaluate(nodes, n, do=(t, 0))[y]
    want = np.mean(a) - np.mean(b)
    scale = 1 + np.abs(a).max() + np.abs(b).max()
    close(got / scale, want / scale, "treatment effect", rtol=1e-9, atol=1e-9,
          n=n, t=t, y=y)
    intact(m, kw, orig, nodes, t, y, cov, r, n, "after computing the effect")
  dep = descends(nodes, t, y)
  anc = any(descends(nodes, i, t) and descends(nodes, i, y) and i != t
            for i in range(k))
  rec.label("t affects y" if dep else "no effect", "confounded" if anc else "unconfounded")
  rec.nontrivial((dep or anc) and t != y)


def st_effect():
  return st.fixed_dictionaries(dict(
      S01.base(), sizes=st.lists(tail(st.integers(1, 9), 130, 5000), min_size=1, max_size=3)))


def fn_fault(case, rec):
  nodes, k, t, y, r, kw, orig, m = setup(case)
  cov = [i % k for i in case["cov"]]
  n = case["n"]
  if k < 2:
    return
  hit = 0
  for j, f in enumerate(case["faults"]):
    r.calls.clear()
    r.fault = dag.Stop if (f + j) % 3 == 0 else dag.Fault
    r.fail_at = f % (2 * (k - 1))
    try:
      m.compute_treatment_effect(n)
    except (dag.Fault, dag.Stop):
      hit += 1
      rec.label("fault in treated pass" if r.fail_at < k - 1 else "fault in control pass")
    r.fail_at = None
    intact(m, kw, orig, nodes, t, y, cov, r, n, f"after a fault at call {f % (2 * (k - 1))}")
  got = scalar(m.compute_treatment_effect(n), "treatment effect")
  a, b = dag.evaluate(nodes, n, do=(t, 1))[y], dag.evaluate(nodes, n, do=(t, 0))[y]
  scale = 1 + np.abs(a).max() + np.abs(b).max()
  close(got / scale, (np.mean(a) - np.mean(b)) / scale, "treatment effect after faults")
  rec.nontrivial(hit > 0)


def st_fault():
  return st.fixed_dictionaries(dict(
      S01.base(), n=st.integers(1, 5),
      faults=st.lists(st.integers(0, 21), min_size=1, max_size=3)))


def fn_random(case, rec):
  """U -> T, U -> Y, T -> M -> Y, T -> Y with Gaussian noise."""
  n = 4000
  w = case["w"]
  a, b, c, e, f = w
  s = .5
  cpds = {
      "u": lambda n, p: np.random.normal(size=n),
      "t": lambda n, p: (p[0] * w[0] + np.random.normal(size=n) > 0).astype(int),
      "m": lambda n, p: w[1] * p[0] + s * np.random.normal(size=n),
      "y": lambda n, p: w[2] * p[0] + w[3] * p[1] + w[4] * p[2] + s * np.random.normal(size=n),
  }
  par = {"u": [], "t": ["u"], "m": ["t"], "y": ["u", "m", "t"]}
  m = scm.SCM("m", ["u", "t", "m", "y"], par, cpds, ["u", "m"], "t", "y")
  got = scalar(m.compute_treatment_effect(n), "treatment effect")
  want = e * b + f
  var = 2 * (c * c + e * e * s * s + s * s) / n
  zcheck(got, want, var, f"treatment effect of a confounded model {w}", z=7)
  again = scalar(m.compute_treatment_effect(n), "treatment effect")
  zcheck(again, want, var, f"second treatment effect of a confounded model {w}", z=7)
  require(again != got, "two effects of a random model are exactly the same", got=got)
  # The mechanisms of the same model change.
  w = case["w2"]
  a, b, c, e, f = w
  if case["replace"]:
    m.cpds["y"] = lambda n, p: (w[2] * p[0] + w[3] * p[1] + w[4] * p[2] +
                                s * np.random.normal(size=n))
  got = scalar(m.compute_treatment_effect(n), "treatment effect")
  var = 2 * (c * c + e * e * s * s + s * s) / n
  zcheck(got, e * b + f, var, f"treatment effect after the mechanisms changed to {w}", z=7)
  rec.label("confounded" if a and c else "unconfounded")
  rec.nontrivial(bool(a and c))


def st_random():
  w = st.sampled_from([0, 1, -1, 2, 3, -3, .5])
  return st.fixed_dictionaries(dict(w=st.tuples(w, w, w, w, w).map(list),
                                    w2=st.tuples(w, w, w, w, w).map(list),
                                    replace=st.booleans(),
                                    seed=st.integers(0, 2**32 - 1)))


SUBS = [
    Sub("effect", st_effect, fn_effect, 1600),
    Sub("fault", st_fault, fn_fault, 900),
    Sub("random", st_random, fn_random, 150),
]
