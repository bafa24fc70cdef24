"""Covariate transformers keep exactly the requested columns."""
import copy

import numpy as np
from hypothesis import strategies as st

from vlib import repo
from vlib.core import Sub, arr, require, tail

data = repo.load("data")
ID = "D02"
RULE = ("a list of tables and a list of transformers (identity, removal, mask with "
        "negative, repeated and reordered indices) applied in a generated order, "
        "each result compared column by column and all inputs and earlier results "
        "re-read at the end; non-trivial = at least one removal or mask applied to a "
        "non-empty table with at least two columns")


def table(n, d, base, dtype):
  cov = (base * 10000 + np.arange(n)[:, None] * 100 + np.arange(d)).astype(dtype)
  return cov, (np.arange(n) % 2).astype(dtype), (np.arange(n) * 3 + base).astype(dtype)


def check(r, cov, exp, rsp, what):
  require(isinstance(r, data.ExpData), f"{what}: not an ExpData: {r!r:.200}")
  g = arr(r.cov, what + ".cov", ndim=2)
  require(g.shape == cov.shape, f"{what}: covariates of shape {g.shape}, expected "
          f"{cov.shape}")
  require(np.array_equal(g, cov), f"{what}: wrong covariate columns",
          got=g[:3].tolist(), want=cov[:3].tolist())
  for f, w in (("exp", exp), ("rsp", rsp)):
    got = getattr(r, f)
    if w is None:
      require(got is None, f"{what}.{f}: present although missing in the input")
    else:
      got = arr(got, f"{what}.{f}", shape=w.shape)
      require(np.array_equal(got, w), f"{what}.{f}: changed")
  require(len(r) == len(cov) and r.n_units == len(cov) and
          r.n_features == cov.shape[1],
          f"{what}: reports {r.n_units} units, {r.n_features} features")


def fn(case, rec):
  d = case["d"]
  dt = {"f": float, "i": int}[case["dtype"]]
  fns = []
  for t in case["fns"]:
    if t["t"] == "id":
      fns.append((data.get_identity_fn(), list(range(d)), "identity"))
    elif t["t"] == "remove":
      i = t["i"] % (2 * d) - d
      keep = [c for c in range(d) if c != i % d]
      fns.append((data.get_remove_coordinates_fn(i), keep, f"remove {i} of {d}"))
      rec.label("remove")
    else:
      idx = [v % (2 * d) - d for v in t["idx"]]
      if not idx and t["as_array"]:
        continue
      given = np.array(idx) if t["as_array"] else list(idx)
      fns.append((data.get_coordinate_mask_fn(given), [v % d for v in idx],
                  f"mask {idx} of {d}"))
      rec.label("mask", "mask-array" if t["as_array"] else "mask-list")
      if len(set(v % d for v in idx)) < len(idx):
        rec.label("repeated")
      if not idx:
        rec.label("empty mask")
  if not fns:
    return
  tabs = []
  for b, n in enumerate(case["sizes"]):
    cov, exp, rsp = table(n, d, b, dt)
    if not case["has_exp"]:
      exp = None
    if not case["has_rsp"]:
      rsp = None
    layout = {"C": np.ascontiguousarray, "F": np.asfortranarray,
              "view": lambda x: np.repeat(x, 2, axis=0)[::2]}[case["layout"]]
    orig = (cov.copy(), copy.copy(exp), copy.copy(rsp))
    tabs.append((data.ExpData(layout(cov), exp, rsp), orig))
  results = []
  nt = False
  for fi, ti in case["apply"]:
    f, cols, name = fns[fi % len(fns)]
    o, (cov, exp, rsp) = tabs[ti % len(tabs)]
    r = f(o)
    want = cov[:, cols] if cols else cov[:, :0]
    check(r, want, exp, rsp, name)
    results.append((r, want, exp, rsp, name))
    if name != "identity" and d >= 2 and len(cov):
      nt = True
  for r, want, exp, rsp, name in results:
    check(r, want, exp, rsp, f"earlier result of {name}")
  for o, (cov, exp, rsp) in tabs:
    check(o, cov, exp, rsp, "input after transformation")
  # Appending to a result (what arms do) leaves the input alone.
  if case["append"] and len(case["sizes"]):
    f, cols, name = fns[0]
    if name != "identity":
      o, (cov, exp, rsp) = tabs[0]
      r = f(o)
      r.append(f(o))
      want = cov[:, cols] if cols else cov[:, :0]
      check(r, np.r_[want, want], None if exp is None else np.r_[exp, exp],
            None if rsp is None else np.r_[rsp, rsp], f"{name} appended to itself")
      check(o, cov, exp, rsp, f"input after appending to the result of {name}")
      rec.label("append")
  # Later changes of the inputs are seen by later transformations, and new data
  # sets are not mistaken for earlier ones.
  for o, (cov, exp, rsp) in tabs:
    o.cov *= -1
    for f, cols, name in fns:
      want = -cov[:, cols] if cols else cov[:, :0]
      check(f(o), want, exp, rsp, f"{name} after a change of the input")
    cov = cov + 1
    f, cols, name = fns[0]
    check(f(data.ExpData(cov.copy(), exp, rsp)),
          cov[:, cols] if cols else cov[:, :0], exp, rsp,
          f"{name} of a new data set")
  rec.nontrivial(nt)


def strategy():
  f = st.one_of(
      st.just(dict(t="id")),
      st.fixed_dictionaries(dict(t=st.just("remove"), i=tail(st.integers(0, 20), 40, 299))),
      st.fixed_dictionaries(dict(t=st.just("mask"), as_array=st.booleans(),
                                 idx=st.lists(tail(st.integers(0, 20), 32, 299, 301), max_size=6))))
  return st.fixed_dictionaries(dict(
      d=tail(st.integers(1, 7), 33, 300), dtype=st.sampled_from(["f", "i"]),
      sizes=st.lists(tail(st.integers(0, 8), 257, 2000), min_size=1, max_size=3),
      has_exp=st.booleans() | st.just(True), has_rsp=st.booleans() | st.just(True),
      layout=st.sampled_from(["C", "F", "view"]),
      fns=st.lists(f, min_size=1, max_size=4), append=st.booleans(),
      apply=st.lists(st.tuples(st.integers(0, 3), st.integers(0, 2)),
                     min_size=1, max_size=8), seed=st.just(0)))


SUBS = [Sub("transform", strategy, fn, 3000)]
