"""SCM sampling follows the declared graph."""
import numpy as np
from hypothesis import strategies as st

from vlib import dag, repo
from vlib.core import Sub, arr, close, raises, require, tail

data, scm = repo.load("data", "scm")
ID = "S01"
RULE = ("generate: a random DAG (ordered parents, scalar and vector variables, "
        "mechanisms that record their calls and disturb the parents list they are "
        "given), roles, covariate order and several sample sizes; non-trivial = some "
        "variable with at least two parents or a covariate order that differs from the "
        "variable order. reject: a model spoiled in one way; non-trivial = always")


def make(case, nodes, rec_, order=None, **over):
  k = len(nodes)
  nm = dag.names(k, case["style"])
  kw = dict(
      name="model",
      var_names=[nm[i] for i in (order or range(k))],
      parents={nm[i]: [nm[p] for p in nodes[i]["parents"]] for i in range(k)},
      cpds={nm[i]: rec_.cpd(i) for i in range(k)},
      cov_variables=[nm[i % k] for i in case["cov"]],
      treatment_variable=nm[case["t"] % k],
      response_variable=nm[case["y"] % k])
  kw.update(over)
  return kw


def fn(case, rec):
  nodes = [dict(n) for n in case["nodes"]]
  k = len(nodes)
  t, y = case["t"] % k, case["y"] % k
  nodes[t]["dim"] = nodes[y]["dim"] = 0
  r = dag.Recorder(nodes)
  kw = make(case, nodes, r)
  nm = dag.names(k, case["style"])
  decl = (list(kw["var_names"]), {a: list(b) for a, b in kw["parents"].items()},
          dict(kw["cpds"]), list(kw["cov_variables"]))
  m = scm.SCM(**kw)
  cov = [i % k for i in case["cov"]]
  for call, n in enumerate(case["sizes"]):
    r.calls.clear()
    r.bump = call
    o = m.generate(n)
    want = dag.evaluate(nodes, n, bump=call)
    seen = [c[0] for c in r.calls]
    require(sorted(seen) == list(range(k)),
            f"call {call}: the mechanisms were evaluated {sorted(seen)} instead of once each")
    for i, cn, ps in r.calls:
      require(cn == n, f"mechanism of {nm[i]} asked for {cn} instead of {n}")
      require(len(ps) == len(nodes[i]["parents"]),
              f"mechanism of {nm[i]} got {len(ps)} parents instead of "
              f"{len(nodes[i]['parents'])}")
      for p, a in zip(nodes[i]["parents"], ps):
        close(a, want[p], f"parent {nm[p]} given to {nm[i]} in call {call}")
    require(isinstance(o, data.ExpData), "not an ExpData")
    wc = np.column_stack([want[i] for i in cov])
    close(o.cov, wc, f"covariates in call {call}")
    close(o.exp, want[t], f"treatment in call {call}")
    close(o.rsp, want[y], f"response in call {call}")
    require(len(o) == n and o.n_units == n and o.n_features == wc.shape[1],
            f"reports {len(o)} units, {o.n_features} features")
    now = (list(kw["var_names"]), {a: list(b) for a, b in kw["parents"].items()},
           dict(kw["cpds"]), list(kw["cov_variables"]))
    require(now == decl, "sampling changed the declarations of the model")
  rec.label(f"vars={k}")
  if len({nodes[i].get("dt") for i in cov}) > 1:
    rec.label("covariates of several types")
  if any(nd["mut"] for nd in nodes):
    rec.label("mutating mechanism")
  if any(len(nd["parents"]) > 1 and nd["parents"] != sorted(nd["parents"])
         for nd in nodes):
    rec.label("unsorted parents")
  if len(case["sizes"]) > 1:
    rec.label("repeated")
  rec.nontrivial(any(len(nd["parents"]) > 1 for nd in nodes) or cov != sorted(cov))


def base():
  return dict(nodes=dag.strategy(), t=st.integers(0, 11), y=st.integers(0, 11),
              style=st.integers(0, 2),
              cov=st.lists(st.integers(0, 11), min_size=1, max_size=6),
              seed=st.just(0))


def strategy():
  return st.fixed_dictionaries(dict(
      base(), sizes=st.lists(tail(st.integers(1, 9) | st.just(0), 130, 5000),
                              min_size=1, max_size=4)))


def fn_reject(case, rec):
  nodes = [dict(n) for n in case["nodes"]]
  k = len(nodes)
  nodes[case["t"] % k]["dim"] = nodes[case["y"] % k]["dim"] = 0
  kind = case["kind"]
  r = dag.Recorder(nodes, mutate=False)
  kw = make(case, nodes, r)
  nm = dag.names(k, case["style"])
  v = nm[case["pick"] % k]
  if kind == "order":
    # Move a variable before one of its ancestors' position: parents come later.
    cand = [i for i in range(k) if nodes[i]["parents"]]
    if not cand:
      return
    i = cand[case["pick"] % len(cand)]
    p = nodes[i]["parents"][case["pick"] % len(nodes[i]["parents"])]
    order = list(range(k))
    order.remove(i)
    order.insert(order.index(p), i)
    kw["var_names"] = [nm[j] for j in order]
  elif kind == "parents":
    del kw["parents"][v]
  elif kind == "cpds":
    del kw["cpds"][v]
  elif kind == "treatment":
    kw["treatment_variable"] = "nope"
  elif kind == "response":
    kw["response_variable"] = "nope"
  elif kind == "cov":
    kw["cov_variables"].insert(case["pick"] % (len(kw["cov_variables"]) + 1), "nope")
  elif kind == "unknown parent":
    kw["parents"][v].append("nope")
  elif kind == "self":
    kw["parents"][v].append(v)
  rec.label(kind)
  rec.nontrivial()
  raises(ValueError, lambda: scm.SCM(**kw).generate(4), f"a model with bad {kind}")


def st_reject():
  return st.fixed_dictionaries(dict(
      base(), pick=st.integers(0, 11),
      kind=st.sampled_from(["order", "order", "parents", "cpds", "treatment",
                            "response", "cov", "unknown parent", "self"])))


# Independent noise: repeated calls and units are not copies of each other.
def fn_noise(case, rec):
  from vlib import stats
  n = 600
  nd = case["d"]
  parents = {"a": [], "b": ["a"], "c": ["b", "a"]}
  cpds = {
      "a": lambda n, p: np.random.normal(size=n) if nd == 0 else np.random.normal(size=(n, nd)),
      "b": lambda n, p: np.random.binomial(1, .5, size=n),
      "c": lambda n, p: np.random.normal(size=n),
  }
  m = scm.SCM("m", ["a", "b", "c"], parents, cpds, ["a"], "b", "c")
  o1, o2 = m.generate(n), m.generate(n)
  c1 = arr(o1.cov, "cov", shape=(n, max(nd, 1)))
  c2 = arr(o2.cov, "cov", shape=(n, max(nd, 1)))
  for a, b, w in ((c1[:, 0], c2[:, 0], "calls"), (o1.rsp, o2.rsp, "calls"),
                  (o1.rsp, c1[:, 0], "variables"), (o1.rsp, o1.exp, "variables"),
                  (c1[1:, 0], c1[:-1, 0], "units")):
    stats.independent(a, b, f"independent {w}")
  stats.normal(c1, "covariate")
  stats.normal(o1.rsp, "response")
  rec.nontrivial()


def st_noise():
  return st.fixed_dictionaries(dict(d=st.integers(0, 3), seed=st.integers(0, 2**32 - 1)))


SUBS = [
    Sub("generate", strategy, fn, 2000),
    Sub("reject", st_reject, fn_reject, 700),
    Sub("noise", st_noise, fn_noise, 60),
]
