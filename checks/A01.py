"""Sample splitting stays honest over any update history."""
import numpy as np
from hypothesis import strategies as st

from vlib import armkit, repo
from vlib.core import Sub, require

ID = "A01"
RULE = ("folds: update sequences of tagged units (sizes 0-20, odd and even, every CI method, "
        "bundled and custom transformations) on an arm with a recording nuisance parameter; "
        "non-trivial = at least three non-empty updates, one of them odd")


def fn_folds(case, rec):
  batches = armkit.sizes_to_ids(case["sizes"])
  pool = armkit.Pool(sum(case["sizes"]) + 1, case["seed"] % 1000)
  tr, tcov = armkit.transformer(case["tr"])
  eta = armkit.RecorderEta(pool, tcov, case)
  arm = armkit.make_arm(case, eta, tr)
  require(arm.get_num_units() == 0 and arm.num_pulled == 0, "a new arm is not empty")
  model = armkit.FoldModel(case["stable"])
  total = 0
  for k, ids in enumerate(batches):
    order = np.random.RandomState(case["seed"] % 2**31 + k).permutation(len(ids))
    ids = [ids[j] for j in order]
    d = pool.take(ids)
    snap = (d.cov.copy(), d.exp.copy(), d.rsp.copy())
    eta.calls.clear()
    arm.update(d, case["delta"])
    total += len(ids)
    require(np.array_equal(d.cov, snap[0]) and np.array_equal(d.exp, snap[1]) and
            np.array_equal(d.rsp, snap[2]) and len(d) == len(ids),
            f"update {k} changed the caller's data")
    f0, f1 = model.update(ids, eta.calls, f"update {k}")
    armkit.check_calls(eta.calls, f0, f1, f"update {k}")
    if eta.ready and f1:
      require(any(c[0] == "score" for c in eta.calls), f"update {k}: nothing was scored")
    require(arm.get_num_units() == total, f"get_num_units after update {k}",
            got=arm.get_num_units(), want=total)
    require(arm.num_pulled == k + 1, f"num_pulled after update {k}", got=arm.num_pulled)
  rec.label("stable" if case["stable"] else "resplit", case["tr"])
  ne = [s for s in case["sizes"] if s]
  rec.nontrivial(len(ne) >= 3 and any(s % 2 for s in ne))


def st_folds():
  return st.fixed_dictionaries(dict(
      sizes=armkit.st_sizes(10), stable=st.booleans(),
      tr=st.sampled_from(armkit.TRANSFORMS), alg=st.sampled_from(sorted(armkit.ALGS)),
      need=st.sampled_from([0, 1, 3, 10]), delta=st.sampled_from([.01, .1]),
      scores=st.just("normal"), width=st.sampled_from([0, .1, "inf"]),
      seed=st.integers(0, 2**31)))


SUBS = [Sub("folds", st_folds, fn_folds, 2500)]
