"""Fitted tabular conditionals are valid, floored distributions."""
import numpy as np
from hypothesis import strategies as st

from vlib import repo
from vlib.core import Sub, arr, close, raises, require, tail

data = repo.load("data")
ID = "D03"
RULE = ("a minimum ratio and a sequence of fits (per-x count vectors over z codes, "
        "skewed and uniform, turned into shuffled samples of scalar or vector z of "
        "several dtypes), queries (seen and unseen values, repeated), str() and "
        "rejected fits on one table; non-trivial = a fit in which some frequency is "
        "below the floor, or a refit")
DT = {"i": np.int64, "f": float, "f4": np.float32, "b": bool, "s": "U3", "i8": np.int8}


def zval(code, dim, dt):
  """The z value (scalar or vector) with the given code."""
  if dt == "b":
    v = [bool((code >> j) & 1) for j in range(max(dim, 1))]
  elif dt == "s":
    v = [f"{(code * 7 + j) % 50}" for j in range(max(dim, 1))]
  else:
    v = [(code * 3 + j * j * (code % 2) - 4) for j in range(max(dim, 1))]
    if dt in ("f", "f4"):
      v = [x / 4 + .125 for x in v]
  return v if dim else v[0]


def xval(code, dt):
  if dt == "b":
    return bool(code % 2)
  if dt == "s":
    return f"x{code}"
  if dt in ("f", "f4"):
    return code / 2 + 1.0
  return code - 1


def key(v):
  return tuple(np.asarray(v).ravel().tolist())


def sample(f, seed):
  dim, zdt, xdt = f["dim"], f["zdt"], f["xdt"]
  xs, zs = [], []
  for xc, counts in enumerate(f["rows"]):
    for zc, c in enumerate(counts):
      xs += [xval(xc, xdt)] * c
      zs += [zval(zc, dim, zdt)] * c
  perm = np.random.RandomState(seed % 2**32).permutation(len(xs))
  x = np.array(xs, dtype=DT[xdt])[perm]
  z = np.array(zs, dtype=DT[zdt]).reshape((len(xs), dim) if dim else (len(xs),))[perm]
  if f["layout"] == "F" and dim:
    z = np.asfortranarray(z)
  elif f["layout"] == "view":
    z = np.repeat(z, 2, axis=0)[::2]
    x = np.repeat(x, 2)[::2]
  return x, z


def laws(cpd, x, z, ratio, rec):
  n = len(x)
  joint = {}
  zk, xk, zv, xv = {}, {}, {}, {}
  for a, b in zip(x, z):
    joint[key(a), key(b)] = joint.get((key(a), key(b)), 0) + 1
    zk[key(b)] = zk.get(key(b), 0) + 1
    xk[key(a)] = xk.get(key(a), 0) + 1
    zv[key(b)], xv[key(a)] = b, a
  k = len(zk)
  floor = 1 / (k * ratio)
  require(cpd.support_size() == k, f"support_size {cpd.support_size()} instead of {k}")
  require(sorted(key(v) for v in cpd.z_support()) == sorted(zk), "z_support",
          got=cpd.z_support(), want=sorted(zk))
  require(sorted(key(v) for v in cpd.x_support()) == sorted(xk), "x_support",
          got=cpd.x_support(), want=sorted(xk))
  close(sorted(cpd.x_marginal.values()), sorted(c / n for c in xk.values()),
        "x_marginal")
  zs = list(zk)
  zarr = np.array([zv[b] for b in zs], dtype=z.dtype)
  floored = False
  xarr = np.empty(k, dtype=x.dtype)
  for a in xk:
    xarr[:] = xv[a]  # the same array again, with other values
    p = arr(cpd.predict(xarr, zarr), "predict", shape=(k,))
    e = np.array([joint.get((a, b), 0) for b in zs]) / xk[a]
    what = f"P(z|x={a}) with {k} values, ratio {ratio}, frequencies {e.tolist()}"
    require(np.all(np.isfinite(p)), what + " not finite", got=p)
    require(abs(p.sum() - 1) < 1e-9, what + f": sums to {p.sum()!r}", got=p)
    require(p.min() >= floor - 1e-12, what + f": below the floor {floor}", got=p)
    low = e < floor - 1e-12
    require(np.allclose(p[low], floor, rtol=1e-9, atol=1e-12), what +
            f": values below the floor {floor} are not raised exactly to it", got=p)
    if not np.any(e < floor + 1e-12):
      close(p, e, what + " (nothing below the floor)", rtol=1e-9, atol=1e-12)
    else:
      floored = True
    high = e >= floor - 1e-12
    require(np.all(p[high] <= e[high] + 1e-9), what + ": a frequency above the "
            "floor was increased", got=p)
    o = np.argsort(e, kind="stable")
    require(np.all(np.diff(p[o]) >= -1e-9), what + ": order reversed", got=p)
  return zs, zarr, list(xv.values()), floored


def snapshot(cpd, x, z):
  xs, zs = np.unique(x), np.unique(z, axis=0)
  out = []
  for a in xs:
    out.append(arr(cpd.predict(np.array([a] * len(zs), dtype=x.dtype), zs), "predict"))
  return np.array(out)


def fn(case, rec):
  ratio = case["ratio"]
  cpd = data.TabularCPD(ratio) if ratio != 20 else data.TabularCPD()
  cur = None
  fits = 0
  nt = False
  for op in case["ops"]:
    kind = op["op"]
    rec.label(kind)
    if kind == "fit":
      x, z = sample(op, case["seed"] + fits)
      if not len(x):
        continue
      x0, z0 = x.copy(), z.copy()
      cpd.fit(x if not op["aslist"] else list(x), z)
      require(np.array_equal(x, x0) and np.array_equal(z, z0), "fit changed the data")
      cur = (x, z)
      fits += 1
      _, _, _, fl = laws(cpd, x, z, ratio, rec)
      if fl:
        nt = True
        rec.label("floored")
      if fits > 1:
        nt = True
        rec.label("refit")
        fresh = data.TabularCPD(ratio)
        fresh.fit(x, z)
        close(snapshot(cpd, x, z), snapshot(fresh, x, z),
              "a refitted table differs from a new one")
    elif kind == "bad":
      if cur is None:
        continue
      x, z = cur
      raises(ValueError, lambda: cpd.fit(x[:-1], z), "fit with different lengths")
      laws(cpd, x, z, ratio, rec)
    elif cur is None:
      continue
    elif kind == "query":
      x, z = cur
      zdim, before = (z.shape[1] if z.ndim == 2 else 0), snapshot(cpd, x, z)
      xs = list(np.unique(x)) + [np.array([xval(9, op["xdt"])]).astype(x.dtype)[0]]
      seen = {key(v) for v in z}
      joint = {(key(a), key(b)) for a, b in zip(x, z)}
      zq = np.array([zval(c, zdim, case["zdt"]) for c in op["codes"]],
                    dtype=z.dtype).reshape((len(op["codes"]),) + z.shape[1:])
      xq = np.array([xs[i % len(xs)] for i in op["xi"]] * len(zq), dtype=x.dtype)[:len(zq)]
      if not len(zq) or len(xq) != len(zq):
        continue
      seenx = {key(a) for a in x}
      p = arr(cpd.predict(xq, zq), "predict", shape=(len(zq),))
      for i in range(len(zq)):
        ok = key(zq[i]) in seen and key(xq[i]) in seenx
        if not ok:
          require(p[i] == 0, f"P({key(zq[i])}|{key(xq[i])}) of an unseen value is {p[i]}")
          rec.label("unseen")
        else:
          one = arr(cpd.predict(xq[i:i + 1], zq[i:i + 1]), "predict", shape=(1,))
          require(one[0] == p[i], "a prediction depends on the other queries")
          if (key(xq[i]), key(zq[i])) not in joint:
            rec.label("zero frequency")
      close(snapshot(cpd, x, z), before, "predictions changed by a query", rtol=0, atol=0)
      laws(cpd, x, z, ratio, rec)
    else:
      x, z = cur
      s = str(cpd)
      require(isinstance(s, str) and s, "str() is empty")
      laws(cpd, x, z, ratio, rec)
  rec.nontrivial(nt)


def strategy():
  counts = st.one_of(
      st.lists(st.integers(0, 6), min_size=1, max_size=7),
      st.lists(st.sampled_from([0, 0, 1, 1, 2, 20, 60]), min_size=1, max_size=9),
      st.lists(st.just(3), min_size=1, max_size=5))
  # Many values: a short pattern of counts, repeated.
  many = st.tuples(st.lists(st.sampled_from([0, 1, 1, 2, 9, 40]), min_size=1, max_size=5),
                   st.sampled_from([10, 25, 60])).map(lambda t: t[0] * t[1])

  def ops(zdt, dim):
    fit = st.fixed_dictionaries(dict(
        op=st.just("fit"), dim=st.just(dim), zdt=st.just(zdt),
        xdt=st.sampled_from(["i", "i", "f", "b", "s", "i8"]),
        rows=st.integers(0, 15).flatmap(lambda i: st.lists(
            many if i == 15 else counts, min_size=1,
            max_size=8 if i == 14 else 2 if i == 15 else 3)),
        layout=st.sampled_from(["C", "F", "view"]), aslist=st.booleans()))
    query = st.fixed_dictionaries(dict(
        op=st.just("query"), xdt=st.just("i"),
        codes=st.lists(st.integers(0, 12), min_size=1, max_size=6),
        xi=st.lists(st.integers(0, 4), min_size=1, max_size=6)))
    return st.tuples(fit, st.lists(st.one_of(
        fit, query, query, st.just(dict(op="str")), st.just(dict(op="bad"))),
        max_size=5)).map(lambda t: [t[0]] + t[1])

  def whole(zdt_dim):
    zdt, dim = zdt_dim
    return st.fixed_dictionaries(dict(
        ratio=st.sampled_from([1, 1.5, 2, 3, 5, 10, 20, 50, 1e4]),
        zdt=st.just(zdt), ops=ops(zdt, dim), seed=st.integers(0, 2**31)))

  return st.tuples(st.sampled_from(["i", "f", "f4", "b", "s"]),
                   tail(st.integers(0, 3), 8, 40)).flatmap(whole)


SUBS = [Sub("table", strategy, fn, 1600)]
