"""Splitting, indexing and appending observations never corrupts rows."""
import numpy as np
from hypothesis import strategies as st

from vlib import repo
from vlib.core import Sub, arr, raises, require, zcheck

data = repo.load("data")
ID = "D01"
RULE = ("ops: a tagged data set and a sequence of split/subsample/index/append "
        "operations on the results; non-trivial = at least two operations of which "
        "one splits or appends at least three units. large: 60-66000 units, up to 50 parts, "
        "put together again; non-trivial = at least two parts. random: repeated splits of one "
        "data set; non-trivial = at least 2 units and 2 parts. reject: an invalid "
        "call; non-trivial = on a non-empty data set")


# Rows carry their identity in every column, so that any mix-up is visible. Units
# with an id of at least INTS have integer values, the others fractional ones.
INTS = 100000
DTYPES = {"f": float, "i": int, "f4": np.float32}


def build(ids, d, oned, has_exp, has_rsp, dtype, first=0):
  ids = np.asarray(ids, dtype=int)
  frac = np.where(ids < INTS, .5, 0)
  if oned:
    cov = (ids * 7 + 1 + frac).astype(dtype)
  else:
    cov = (ids[:, None] * 100 + np.arange(d)[None, :] + frac[:, None]).astype(dtype)
  exp = (ids * 3 + 1 + frac).astype(dtype) if has_exp else None
  rsp = (-ids * 5 - 2 - frac).astype(dtype) if has_rsp else None
  return data.ExpData(cov, exp, rsp)


def first_id(dtype):
  return INTS if dtype == "i" else 0


class Model:

  def __init__(self, ids, d, oned, has_exp, has_rsp):
    self.ids, self.d, self.oned = list(ids), d, oned
    self.has_exp, self.has_rsp = has_exp, has_rsp


def row_ids(obj, m, what):
  """The ids of the rows of obj; a Violation if any row is inconsistent."""
  require(isinstance(obj, data.ExpData), f"{what}: not an ExpData: {obj!r:.200}")
  cov = arr(obj.cov, what + ".cov", ndim=1 if m.oned else 2)
  if m.oned:
    ids = (cov - 1) / 7
  else:
    require(cov.shape[1] == m.d, f"{what}: {cov.shape[1]} features instead of {m.d}")
    ids = cov[:, 0] / 100
  ids = [int(round(float(i))) for i in ids]
  want = build(ids, m.d, m.oned, m.has_exp, m.has_rsp, float)
  for f in ("cov", "exp", "rsp"):
    g, w = getattr(obj, f), getattr(want, f)
    if w is None:
      require(g is None, f"{what}.{f}: present although never given")
    else:
      require(g is not None, f"{what}.{f}: lost")
      g = arr(g, f"{what}.{f}", shape=w.shape)
      require(np.array_equal(g, w), f"{what}.{f}: rows do not stay together",
              got=g.tolist(), want=w.tolist())
  n = len(ids)
  require(len(obj) == n and obj.n_units == n,
          f"{what}: reports {len(obj)}/{obj.n_units} units but has {n}")
  require(obj.n_features == (1 if m.oned else m.d),
          f"{what}: reports {obj.n_features} features instead of {m.d}")
  return ids


def check(obj, m, what):
  ids = row_ids(obj, m, what)
  require(ids == m.ids, f"{what}: rows changed", got=ids, want=m.ids)


def part(m, ids):
  return Model(ids, m.d, m.oned, m.has_exp, m.has_rsp)


def fn_ops(case, rec):
  base = first_id(case["dtype"])
  m = Model(range(base, base + case["n"]), case["d"], case["oned"], case["exp"],
            case["rsp"])
  dt = DTYPES[case["dtype"]]
  objs = [(build(m.ids, m.d, m.oned, m.has_exp, m.has_rsp, dt), m)]
  nxt = case["n"]
  big = 0
  for op in case["ops"]:
    o, om = objs[op["i"] % len(objs)]
    n = len(om.ids)
    kind = op["op"]
    rec.label(kind)
    if kind == "kfold":
      k = op["k"]
      folds = o.k_fold(k)
      require(len(folds) == k, f"k_fold({k}) returned {len(folds)} folds")
      got = [row_ids(f, om, f"fold {i} of {k}") for i, f in enumerate(folds)]
      require(sorted(sum(got, [])) == sorted(om.ids),
              f"k_fold({k}) is not a partition", got=got, want=om.ids)
      sizes = [len(g) for g in got]
      require(max(sizes) - min(sizes) <= 1, f"k_fold({k}) of {n}: sizes {sizes}")
      objs += [(f, part(om, g)) for f, g in zip(folds, got)][:3]
      big += n >= 3 and k >= 2
      if k > n:
        rec.label("k>n")
    elif kind == "sub":
      p = op["p"]
      parts = o.subsample(p)
      require(len(parts) == 2, f"subsample returned {len(parts)} parts")
      got = [row_ids(f, om, f"subsample({p})[{i}]") for i, f in enumerate(parts)]
      require(sorted(sum(got, [])) == sorted(om.ids),
              f"subsample({p}) is not a partition", got=got, want=om.ids)
      if p == 0:
        require(not got[0], "subsample(0): first part not empty", got=got)
      if p == 1:
        require(not got[1], "subsample(1): second part not empty", got=got)
      objs += [(f, part(om, g)) for f, g in zip(parts, got)]
      big += n >= 3
    elif kind == "slice":
      s = slice(op["a"], op["b"], op["s"])
      r = o[s]
      rm = part(om, om.ids[s])
      check(r, rm, f"data[{s}]")
      objs.append((r, rm))
    elif kind == "fancy":
      if n:
        idx = [v % (2 * n) - n for v in op["idx"]]
        r = o[np.array(idx, dtype=int)]
        rm = part(om, [om.ids[v] for v in idx])
        check(r, rm, f"data[{idx}]")
        objs.append((r, rm))
    elif kind == "mask":
      mask = [bool((op["bits"] >> (i % 16)) & 1) for i in range(n)]
      r = o[np.array(mask, dtype=bool)]
      rm = part(om, [v for v, b in zip(om.ids, mask) if b])
      check(r, rm, "data[mask]")
      objs.append((r, rm))
    elif kind == "append":
      # To a new data set or to one of the others (possibly itself).
      if op["new"] is not None:
        # The new data may be of another number type.
        ids = list(range(nxt, nxt + op["new"]))
        nxt += op["new"]
        ids = [first_id(op["dtype"]) + v for v in ids]
        b = build(ids, om.d, om.oned, om.has_exp, om.has_rsp, DTYPES[op["dtype"]])
        if op["dtype"] != case["dtype"] and op["new"]:
          rec.label("append of another type")
        bm = part(om, ids)
      else:
        b, bm = objs[op["j"] % len(objs)]
      o.append(b)
      om.ids = om.ids + list(bm.ids)
      if b is not o:
        check(b, bm, "appended data")
      big += len(om.ids) >= 3
    # Everything obtained so far is still what it was.
    for q, (x, xm) in enumerate(objs):
      check(x, xm, f"data set {q} after {op}")
    if len(objs) > 8:
      objs = objs[:1] + objs[-6:]
  rec.label("n=0" if case["n"] == 0 else "n>0", "1-d" if case["oned"] else "2-d")
  rec.nontrivial(len(case["ops"]) >= 2 and big > 0)


def st_ops():
  op = st.one_of(
      st.fixed_dictionaries(dict(op=st.just("kfold"), i=st.integers(0, 7),
                                 k=st.integers(1, 12))),
      st.fixed_dictionaries(dict(op=st.just("sub"), i=st.integers(0, 7),
                                 p=st.sampled_from([0, 1, .5, .25, .9, 1 / 3, 0.01, 0.0, 1.0]))),
      st.fixed_dictionaries(dict(op=st.just("slice"), i=st.integers(0, 7),
                                 a=st.none() | st.integers(-8, 20),
                                 b=st.none() | st.integers(-8, 20),
                                 s=st.sampled_from([None, 1, 2, -1, 3]))),
      st.fixed_dictionaries(dict(op=st.just("fancy"), i=st.integers(0, 7),
                                 idx=st.lists(st.integers(0, 60), max_size=6))),
      st.fixed_dictionaries(dict(op=st.just("mask"), i=st.integers(0, 7),
                                 bits=st.integers(0, 65535))),
      st.fixed_dictionaries(dict(op=st.just("append"), i=st.integers(0, 7),
                                 j=st.integers(0, 7),
                                 dtype=st.sampled_from(["f", "i", "f4"]),
                                 new=st.none() | st.integers(0, 9))))
  return st.fixed_dictionaries(dict(
      n=st.one_of(st.integers(0, 6), st.integers(0, 40)), d=st.integers(1, 4),
      oned=st.booleans(), exp=st.booleans() | st.just(True),
      rsp=st.booleans() | st.just(True),
      dtype=st.sampled_from(["f", "i", "f4"]),
      ops=st.lists(op, min_size=1, max_size=8), seed=st.integers(0, 2**32 - 1)))


# ----------------------------------------------------------- large data sets
def fn_large(case, rec):
  """Partition, order and spread for more units and parts than tests use."""
  n, k, d = case["n"], case["k"], case["d"]
  m = Model(range(n), d, False, True, case["rsp"])
  o = build(m.ids, d, False, True, case["rsp"], float)
  folds = o.k_fold(k)
  require(len(folds) == k, f"k_fold({k}) returned {len(folds)} folds")
  where = np.full(n, -1)
  for i, f in enumerate(folds):
    ids = np.array(row_ids(f, m, f"fold {i} of {k}"), dtype=int)
    require(len(ids) in (n // k, -(-n // k)), f"k_fold({k}) of {n}: a fold of {len(ids)}")
    require(np.all((ids >= 0) & (ids < n)) and np.all(where[ids] == -1) and
            len(set(ids.tolist())) == len(ids), f"k_fold({k}) of {n} is not a partition")
    where[ids] = i
  require(np.all(where >= 0), f"k_fold({k}) of {n} is not a partition")
  spread(where, k, f"k_fold({k}) of {n}")
  again = np.full(n, -1)
  for i, f in enumerate(o.k_fold(k)):
    again[row_ids(f, m, "fold")] = i
  if k > 1:
    zcheck((again == where).sum(), n / k, n / k * (1 - 1 / k) * n / (n - 1),
           f"two calls of k_fold({k}) of {n}: units in the same fold", z=7.5)
  p = case["p"]
  a, b = o.subsample(p)
  ia, ib = (np.array(row_ids(x, m, f"subsample({p})"), dtype=int) for x in (a, b))
  require(np.array_equal(np.sort(np.r_[ia, ib]), np.arange(n)),
          f"subsample({p}) of {n} is not a partition")
  sel = np.zeros(n, dtype=int)
  sel[ia] = 1
  # Drawing exactly the share or each unit by itself is both admissible.
  require(abs(len(ia) - n * p) <= 7.5 * np.sqrt(n * p * (1 - p)) + 6,
          f"subsample({p}) of {n} selects {len(ia)}")
  spread(sel, 2, f"subsample({p}) of {n}")
  # Appending in many pieces.
  cut = sorted({int(v * n) for v in case["cuts"]} | {0, n})
  whole = o[:0]
  for s, e in zip(cut, cut[1:]):
    whole.append(o[s:e])
  check(whole, m, "data set put together again")
  for f in folds[1:]:
    folds[0].append(f)
  require(sorted(row_ids(folds[0], m, "folds put together")) == m.ids,
          f"the folds of {n} put together again")
  check(o, m, "the data set itself")
  rec.label(f"n>={10**int(np.log10(n))}")
  rec.nontrivial(k > 1)


def spread(where, k, what):
  """Neighbouring, distant and mirrored units are in the same part as often as any."""
  n = len(where)
  c = np.bincount(where, minlength=k)
  p = float((c * (c - 1)).sum()) / (n * (n - 1))  # of any two units
  for name, x, y in (("neighbouring units", where[1:], where[:-1]),
                     ("units a half apart", where[:n // 2], where[n // 2:n // 2 * 2]),
                     ("mirrored units", where[:n // 2], where[::-1][:n // 2]),
                     ("units k apart", where[k:], where[:-k])):
    if len(x) >= 30:
      # Overlapping pairs and drawing without replacement: at most doubled.
      zcheck((x == y).sum(), len(x) * p, 2 * len(x) * max(p * (1 - p), 1 / n),
             f"{what}: {name} in one part", z=7)
  for f in {0, k - 1}:
    h = n // 2
    q = c[f] / n
    zcheck((where[:h] == f).sum(), h * q, h * q * (1 - q) + 1e-9,
           f"{what}: part {f} in the first half", z=7) if 0 < q < 1 else None


def st_large():
  return st.fixed_dictionaries(dict(
      n=st.sampled_from([60, 100, 128, 129, 255, 256, 257, 500, 1000, 1024, 5000, 33000,
                         66000]),
      k=st.one_of(st.integers(1, 12), st.sampled_from([16, 32, 50])), d=st.integers(1, 3),
      rsp=st.booleans() | st.just(True), p=st.sampled_from([.02, .1, .25, .5, .75, .9, .004, .0375, .125,
                                                  1 / 3, .996]),
      cuts=st.lists(st.floats(0, 1), max_size=12), seed=st.integers(0, 2**32 - 1)))


# ------------------------------------------------------------- random splits
def fn_random(case, rec):
  n, k, r = case["n"], case["k"], 300
  m = Model(range(n), 1, False, True, True)
  o = build(m.ids, 1, False, True, True, float)
  part_count = np.zeros(n)
  part_mean = np.zeros(n)
  part_var = np.zeros(n)
  pairs = [(0, 1), (0, n - 1), (0, n // 2), (1, 2)]
  pairs = [(a, b) for a, b in pairs if a != b and b < n and a < n]
  pc, pm, pv = np.zeros(len(pairs)), np.zeros(len(pairs)), np.zeros(len(pairs))
  f = case["fold"] % k
  first = None
  distinct = False
  for _ in range(r):
    folds = [row_ids(x, m, "fold") for x in o.k_fold(k)]
    if first is None:
      first = folds
    distinct = distinct or folds != first
    where = np.empty(n, dtype=int)
    for i, ids in enumerate(folds):
      where[ids] = i
    p = len(folds[f]) / n
    part_count += where == f
    part_mean += p
    part_var += p * (1 - p)
    same = sum(len(x) * (len(x) - 1) for x in folds) / (n * (n - 1))
    for q, (a, b) in enumerate(pairs):
      pc[q] += where[a] == where[b]
      pm[q] += same
      pv[q] += same * (1 - same)
  for i in range(n):
    zcheck(part_count[i], part_mean[i], part_var[i],
           f"unit {i} of {n} in fold {f} of {k} over {r} splits")
  for q, ab in enumerate(pairs):
    zcheck(pc[q], pm[q], pv[q], f"units {ab} of {n} share one of {k} folds")
  rec.nontrivial(n >= 2 and k >= 2)


def st_random():
  return st.fixed_dictionaries(dict(n=st.integers(2, 11), k=st.integers(2, 4),
                                    fold=st.integers(0, 3),
                                    seed=st.integers(0, 2**32 - 1)))


def fn_randsub(case, rec):
  n, p, r = case["n"], case["p"], 300
  m = Model(range(n), 1, False, True, True)
  o = build(m.ids, 1, False, True, True, float)
  cnt = np.zeros(n)
  seen = set()
  for _ in range(r):
    a, _ = o.subsample(p)
    ids = row_ids(a, m, "subsample")
    cnt[ids] += 1
    seen.add(tuple(sorted(ids)))
  tol = 7 * np.sqrt(p * (1 - p) / r) + 3 / r + 1 / n
  dev = np.abs(cnt / r - p)
  require(np.all(dev <= tol), f"subsample({p}) of {n} units: unit "
          f"{int(np.argmax(dev))} selected with frequency {cnt[np.argmax(dev)] / r}")
  tot = cnt.sum() / (n * r)
  require(abs(tot - p) <= 7 * np.sqrt(p * (1 - p) / (r * n)) + .5 / n,
          f"subsample({p}) of {n} units selects a share of {tot}")
  require(len(seen) > 1, f"subsample({p}) of {n} units always selects {seen}")
  rec.nontrivial(n >= 10)


def st_randsub():
  return st.fixed_dictionaries(dict(n=st.integers(10, 40),
                                    p=st.sampled_from([.1, .2, .3, .5, .7, .85]),
                                    seed=st.integers(0, 2**32 - 1)))


# --------------------------------------------------------------- invalid calls
def fn_reject(case, rec):
  m = Model(range(case["n"]), case["d"], case["oned"], case["exp"], case["rsp"])
  o = build(m.ids, m.d, m.oned, m.has_exp, m.has_rsp, float)
  ids = range(case["n"], case["n"] + case["m"])
  kind = case["kind"]
  rec.label(kind)
  if kind == "k":
    raises(ValueError, lambda: o.k_fold(case["k"]), f"k_fold({case['k']})")
  elif kind == "p":
    raises(ValueError, lambda: o.subsample(case["p"]), f"subsample({case['p']})")
  elif kind == "features":
    d2 = case["d"] + case["extra"]
    b = build(ids, d2, False, True, True, float)
    if m.oned and d2 == 1:
      return
    raises(ValueError, lambda: o.append(b), "append with other features")
  else:  # a missing part
    if kind == "exp" and not m.has_exp or kind == "rsp" and not m.has_rsp:
      return
    b = build(ids, m.d, m.oned, kind != "exp" and m.has_exp,
              kind != "rsp" and m.has_rsp, float)
    raises(ValueError, lambda: o.append(b), f"append without {kind}")
  check(o, m, "data after a rejected call")
  # The data set is still usable.
  b = build(ids, m.d, m.oned, m.has_exp, m.has_rsp, float)
  o.append(b)
  m.ids += list(ids)
  check(o, m, "data after a rejected and an accepted call")
  rec.nontrivial(case["n"] > 0)


def st_reject():
  return st.fixed_dictionaries(dict(
      n=st.integers(0, 8), d=st.integers(1, 3), oned=st.booleans(),
      exp=st.booleans(), rsp=st.booleans(), m=st.integers(0, 5),
      kind=st.sampled_from(["k", "p", "features", "exp", "rsp"]),
      k=st.integers(-6, 0), extra=st.integers(1, 3),
      p=st.one_of(st.floats(-5, -1e-9), st.floats(1 + 1e-9, 5),
                  st.sampled_from([-1, 2, 1.0000001, -1e-12, 100])),
      seed=st.integers(0, 2**32 - 1)))


SUBS = [
    Sub("ops", st_ops, fn_ops, 2500),
    Sub("large", st_large, fn_large, 150),
    Sub("random", st_random, fn_random, 64),
    Sub("randsub", st_randsub, fn_randsub, 60),
    Sub("reject", st_reject, fn_reject, 800),
]
