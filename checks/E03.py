"""Random nonlinear functions are well-behaved functions."""
import numpy as np
from hypothesis import strategies as st
from sklearn.gaussian_process import kernels

from vlib import repo
from vlib.core import Sub, arr, require

nonlinear, paper = repo.load("nonlinear_utils", "paper_utils")
ID = "E03"
RULE = ("function: random functions for generated dimensions, kernels, ranges, numbers of "
        "points and seeds, evaluated on generated inputs whole, in pieces, permuted and "
        "repeatedly, rebuilt under another global random state and from another seed; "
        "non-trivial = at least two outputs or inputs. unseeded: three functions drawn twice "
        "without a seed under the same global random state; non-trivial = always. range: short fixed length scales, "
        "where the function must vanish outside the requested range and not at its ends; "
        "non-trivial = always. softmax: vectors of any magnitude; non-trivial = two "
        "different finite entries")


def kernel(case):
  k = case["kernel"]
  if k == "rbf":
    return kernels.RBF(length_scale=1, length_scale_bounds=(1e-1, 1000.0))
  if k == "matern":
    return kernels.Matern(length_scale=.7, nu=1.5)
  if k == "fixed":
    return kernels.RBF(length_scale=.5, length_scale_bounds="fixed")
  if k == "scaled":
    return 2.0 * kernels.RBF(length_scale=1.0)
  return None


POINTS = {1: [2, 3, 10, 20], 2: [2, 4, 8], 3: [2, 3, 4]}


def make(case, kern, seed, glob):
  np.random.seed(glob % 2**32)
  kw = {} if kern is None else dict(kernel=kern)
  # The default kernel is no covariance in several dimensions unless alpha is large.
  if case["alpha"] is not None and (kern is not None or case["dim"] == 1):
    kw["alpha"] = case["alpha"]
  if case["out"] != 1 or case["seed"] % 2:
    kw["out_dim"] = case["out"]
  pts = POINTS[case["dim"]]
  return nonlinear.generate_random_nd_function(
      case["dim"], min_x=case["lo"], max_x=case["lo"] + case["span"],
      n_points=pts[case["points"] % len(pts)], seed=seed, **kw)


def fn_function(case, rec):
  seed = case["seed"] % (10**6 if case["step"] < 100 else 2**31)
  kern = kernel(case)
  before = repr(kern)
  f = make(case, kern, seed, case["glob"])
  n, dim, out = case["n"], case["dim"], case["out"]
  rs = np.random.RandomState(seed)
  x = case["lo"] + case["span"] * rs.uniform(-.2, 1.2, size=(n, dim))
  if case["layout"] == "columns":
    x = np.asfortranarray(x)
  keep = x.copy()
  y = arr(f(x), "output", shape=(n, out))
  require(np.array_equal(x, keep), "the input was modified")
  require(np.all(np.isfinite(y)), "output is not finite")
  tol = dict(rtol=1e-7, atol=1e-8)
  # Repeatable, whatever happens in between.
  f(x[:1] + 1)
  np.random.seed(1)
  require(np.allclose(f(x), y, **tol), "a second evaluation gives something else")
  # Each row depends on its own input row.
  perm = rs.permutation(n)
  require(np.allclose(f(x[perm]), y[perm], **tol), "permuted inputs do not give permuted "
          "outputs")
  cut = case["cut"] % n
  for part in (slice(0, cut), slice(cut, n)):
    if len(x[part]):
      got = arr(f(x[part]), "output of a part", shape=(len(x[part]), out))
      require(np.allclose(got, y[part], **tol), "rows depend on each other")
  for i in {0, case["cut"] % n, n - 1}:
    z = x.copy()
    z[i] = z[i] + .7 * case["span"] * rs.choice([-1, 1])
    got = f(z)
    require(np.allclose(np.delete(got, i, 0), np.delete(y, i, 0), **tol),
            "rows depend on each other", changed=i)
    require(np.allclose(got[i], f(z[i:i + 1])[0], **tol),
            "a changed row is not evaluated at its own input", changed=i)
  # An array that is overwritten in place and used again.
  buf = x.copy()
  f(buf)
  buf[:] = z
  require(np.allclose(f(buf), f(z.copy()), **tol), "an array that was overwritten since the "
          "last evaluation gives the earlier values")
  # Inputs that happen to be stored as integers or in a wider table.
  z = rs.randint(int(np.floor(case["lo"])), int(np.ceil(case["lo"] + case["span"])) + 1,
                 size=(6, dim))
  require(np.allclose(f(z), f(z.astype(float)), **tol), "integer inputs give another value",
          got=f(z).tolist(), want=f(z.astype(float)).tolist())
  wide = np.empty((n, dim + 2))
  wide[:, 1:-1] = x
  require(np.allclose(f(wide[:, 1:-1]), y, **tol), "equal inputs stored in a wider table "
          "give another value")
  # Determined by the seed alone.
  g = make(case, kern, seed, case["glob"] + 1)
  require(repr(kern) == before, "the kernel was modified")
  require(np.allclose(g(x), y, **tol), "the same seed gives another function",
          got=g(x)[:2].tolist(), want=y[:2].tolist())
  h = make(case, kern, seed + case["step"], case["glob"])
  # The fitted length scale may be so short that the function vanishes between the points it
  # was drawn at, which include the corners of the range.
  z = np.r_[x, np.full((1, dim), case["lo"]), np.full((1, dim), case["lo"] + case["span"])]
  at = f(z)
  require(not np.array_equal(h(z), at), "another seed gives the same function",
          seeds=(seed, seed + case["step"]))
  for i in range(out):
    for j in range(i):
      require(not np.allclose(at[:, i], at[:, j], rtol=1e-9, atol=1e-12),
              f"outputs {j} and {i} are the same function")
  rec.label(case["kernel"], f"{dim} inputs", f"{out} outputs")
  rec.nontrivial(out > 1 or dim > 1)


def st_function():
  return st.integers(1, 3).flatmap(lambda dim: st.fixed_dictionaries(dict(
      dim=st.just(dim), out=st.integers(1, 4),
      kernel=st.sampled_from(["default", "rbf", "matern", "fixed", "scaled"]),
      lo=st.sampled_from([-1, -2, 0, 1, -.5]), span=st.sampled_from([1, 2, 4]),
      points=st.integers(0, 3), n=st.one_of(st.integers(2, 12), st.sampled_from([100, 700])),
      cut=st.integers(0, 700),
      alpha=st.sampled_from([None, 1e-2, 1, 100]),
      layout=st.sampled_from(["rows", "columns"]),
      step=st.sampled_from([1, 1, 2, 100, 256, 1000, 10**4, 2**16, 10**5, 10**6, 2**20, 2**31]),
      glob=st.integers(0, 2**31), seed=st.integers(0, 2**31))))


def fn_unseeded(case, rec):
  """Without a seed, the functions follow numpy's global random state."""
  x = np.linspace(-.9, .9, 4 * case["dim"]).reshape(4, case["dim"])
  kern = kernels.RBF(length_scale=.5, length_scale_bounds="fixed")
  kw = {} if case["explicit"] else dict(seed=None)

  def draw():
    np.random.seed(case["glob"] % 2**32)
    fs = [nonlinear.generate_random_nd_function(
        case["dim"], case["out"], kernel=kern, n_points=4, **kw) for _ in range(3)]
    return [arr(f(x), "output", shape=(4, case["out"])) for f in fs]

  one, two = draw(), draw()
  for i in range(3):
    require(np.allclose(one[i], two[i], rtol=1e-7, atol=1e-8),
            f"function {i} differs under the same global random state",
            got=two[i].tolist(), want=one[i].tolist())
  # There are finitely many seeds, so that two of the functions may be the same.
  require(any(not np.array_equal(one[i], one[0]) for i in (1, 2)),
          "functions drawn one after the other are all the same")
  rec.nontrivial()
  rec.label(f"{case['out']} outputs")


def st_unseeded():
  return st.fixed_dictionaries(dict(
      dim=st.integers(1, 3), out=st.integers(1, 3), explicit=st.booleans(),
      glob=st.integers(0, 2**31), seed=st.integers(0, 2**31)))


def fn_range(case, rec):
  dim, lo, span = case["dim"], case["lo"], case["span"]
  pts = 4 if dim > 1 else case["pts"]
  ell = span / pts
  kern = kernels.RBF(length_scale=ell, length_scale_bounds="fixed")
  f = nonlinear.generate_random_nd_function(
      dim, case["out"], kernel=kern, min_x=lo, max_x=lo + span, n_points=pts,
      seed=case["seed"] % 10**6, alpha=.1)
  hi = lo + span
  # The ends of the range in every coordinate, and points well outside.
  ends = np.array([[lo] * dim, [hi] * dim, [lo] + [hi] * (dim - 1)], dtype=float)
  y = arr(f(ends), "output", shape=(3, case["out"]))
  require(np.all(np.abs(y) > 1e-9), "no draw at the ends of the range", got=y.tolist(),
          range=(lo, hi))
  mid = np.full((2 * dim, dim), (lo + hi) / 2)
  for i in range(dim):
    mid[2 * i, i] = lo - 9 * ell
    mid[2 * i + 1, i] = hi + 9 * ell
  out = f(mid)
  require(np.all(np.abs(out) < 1e-9), "the function was drawn outside the range",
          got=out.tolist(), range=(lo, hi))
  rec.nontrivial()
  rec.label(f"{dim} inputs")


def st_range():
  return st.fixed_dictionaries(dict(
      dim=st.integers(1, 3), out=st.integers(1, 3), pts=st.sampled_from([3, 5, 12]),
      lo=st.sampled_from([-1, -2, 0, 1, -.5, 3, -10]), span=st.sampled_from([.5, 1, 2, 4]),
      seed=st.integers(0, 2**31)))


def fn_softmax(case, rec):
  x = np.array(case["x"], dtype=float)
  x = x + case["base"]
  if case["ints"]:
    x = np.round(np.clip(x, -1e6, 1e6)).astype(int)
  if case["narrow"] is not None:
    # Integers of any width. (A shift could leave their range, so they are not shifted.)
    kind = np.dtype(case["narrow"])
    info = np.iinfo(kind)
    x = np.clip(x, info.min, info.max).astype(kind)
    rec.label(case["narrow"])
  keep = x.copy()
  for name, mod in (("nonlinear_utils", nonlinear), ("paper_utils", paper)):
    what = f"{name}.softmax"
    p = arr(mod.softmax(x), what, shape=x.shape)
    require(np.array_equal(x, keep), f"{what} modified its input")
    require(np.all(p >= 0) and abs(p.sum() - 1) <= 1e-9, f"{what}: not a probability vector",
            got=p.tolist())
    i = np.argsort(x, kind="stable")
    require(np.all(np.diff(p[i]) >= 0), f"{what}: order not preserved", x=x.tolist(),
            got=p.tolist())
    q = mod.softmax(x + case["shift"] if case["narrow"] is None else
                    x.astype(float) + case["shift"])
    slack = 1e-9 + 1e-12 * (np.max(np.abs(x.astype(float))) + abs(case["shift"]))
    require(np.allclose(p, q, rtol=slack, atol=slack), f"{what}: not shift invariant",
            shift=case["shift"], one=p.tolist(), two=q.tolist())
    # Log odds are the differences of the entries.
    ok = p > 1e-290
    d = np.log(p[ok]) - np.log(p[ok][0])
    wide = x.astype(float)[ok]
    require(np.allclose(d, wide - wide[0], rtol=1e-9, atol=slack),
            f"{what}: log odds are not the differences", x=x.tolist(), got=p.tolist())
    # The columns of a matrix are vectors of their own.
    if case["columns"]:
      m = np.column_stack([x[::1 - 2 * (j % 2)].astype(float) + b
                           for j, b in enumerate(case["columns"])])
      got = arr(mod.softmax(m), what + " of a matrix", shape=m.shape)
      for j in range(m.shape[1]):
        require(np.allclose(got[:, j], mod.softmax(m[:, j]), rtol=1e-9, atol=1e-12),
                f"{what} of a matrix: a column is not the softmax of that column",
                column=m[:, j].tolist(), bases=case["columns"], got=got[:, j].tolist())
      rec.label("matrix")
  rec.nontrivial(len(set(x.tolist())) > 1)


def st_softmax():
  v = st.one_of(st.floats(-5, 5), st.floats(-1000, 1000), st.floats(-1e6, 1e6),
                st.sampled_from([0.0, 1.0, 709.0, 710.0, -745.0]))
  return st.fixed_dictionaries(dict(
      x=st.lists(v, min_size=1, max_size=12),
      base=st.sampled_from([0, 0, 0, -400, -480, -700, -740, 700, 720, 1e5]), ints=st.booleans(),
      narrow=st.sampled_from([None, None, None, "int8", "uint8", "int16", "uint32"]),
      shift=st.sampled_from([0, 1, -3, 100, 1e4, -1e6]),
      columns=st.lists(st.sampled_from([0, 1, -5, 300, -800, 2000, -1e5]), max_size=4), seed=st.just(0)))


SUBS = [Sub("function", st_function, fn_function, 260),
        Sub("unseeded", st_unseeded, fn_unseeded, 120),
        Sub("range", st_range, fn_range, 240),
        Sub("softmax", st_softmax, fn_softmax, 700)]
