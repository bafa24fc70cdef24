"""Result plots show exactly the recorded run."""
import warnings

import numpy as np
from hypothesis import strategies as st

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt

from vlib import banditkit, repo
from vlib.core import Sub, require

arms, bandits, plotting = repo.load("arms", "bandits", "plotting_utils")
ID = "E04"
RULE = ("results: generated run records (also with infinite bounds, estimates outside them, and as arrays), arm "
        "subsets and numbers of omitted rounds, the drawn lines, bands and legend read back "
        "from the figure; non-trivial = two arms plotted and one left out, or rounds "
        "omitted. run: the same for records of generated bandit runs. surface: functions "
        "over generated (asymmetric) ranges, the drawn surface read back; non-trivial = "
        "different ranges per axis")


def key(x, y):
  return tuple(zip([float(v) for v in x], [repr(float(v)) for v in y]))


def check_plot(ax, out, chosen, bdata, skip):
  require(out is ax, "the axes are not returned")
  cum = [float(v) for v in bdata.cum_samples][skip:]
  want, labels = [], {}
  for a in chosen:
    parts = [m[a][skip:] for m in (bdata.var_est_by_arm, bdata.lcb_by_arm,
                                   bdata.ucb_by_arm)]
    want += [key(cum, p) for p in parts]
    labels.setdefault(a.name, []).append(key(cum, parts[0]))
  got = [key(line.get_xdata(orig=True), line.get_ydata(orig=True)) for line in ax.lines]
  require(sorted(got) == sorted(want), "the drawn lines are not the estimates and bounds of "
          "the requested arms", lines=len(got), wanted=len(want),
          odd=[g for g in got if g not in want][:2], missing=[w for w in want if w not in
                                                              got][:2])
  for name, keys in labels.items():
    named = [key(l.get_xdata(), l.get_ydata()) for l in ax.lines if l.get_label() == name]
    require(sorted(named) == sorted(keys), "the line labelled with the arm's name is not its "
            "estimate", name=name, got=named[:2], want=keys[:2])
  leg = ax.get_legend()
  texts = [t.get_text() for t in leg.get_texts()] if leg else []
  require(sorted(texts) == sorted(a.name for a in chosen), "legend", got=texts,
          want=[a.name for a in chosen])
  # Bands between the bounds.
  require(len(ax.collections) == len(chosen), "number of bands", got=len(ax.collections),
          want=len(chosen))
  left = list(ax.collections)
  for a in chosen:
    lo = np.array(bdata.lcb_by_arm[a][skip:], dtype=float)
    hi = np.array(bdata.ucb_by_arm[a][skip:], dtype=float)
    if not (np.all(np.isfinite(lo)) and np.all(np.isfinite(hi))):
      continue
    pts = {(x, v) for x, l, h in zip(cum, lo, hi) for v in (l, h)}

    def fits(c):
      got = {(float(p), float(q)) for path in c.get_paths() for p, q in path.vertices}
      return got == pts or (not pts and not got)

    hit = [c for c in left if fits(c)]
    require(hit, f"no band between the bounds of {a.name}")
    left = [c for c in left if c is not hit[0]]


def snapshot(b):
  per = lambda m: [(id(a), [float(v) for v in m[a]]) for a in m]
  return repr((per(b.lcb_by_arm), per(b.ucb_by_arm), per(b.var_est_by_arm),
               per(b.samples_by_arm), [float(v) for v in b.cum_samples],
               [id(a) for a in b.best_arm]))


def draw_and_check(bdata, all_arms, case, rec):
  chosen = [all_arms[i % len(all_arms)] for i in case["pick"]]
  chosen = [a for i, a in enumerate(chosen) if a not in chosen[:i]]
  before = snapshot(bdata)
  order = [id(a) for a in chosen]
  k = case["axes"]
  fig, axes = plt.subplots(1, k, squeeze=False)
  ax = axes[0, case["at"] % k]
  if case["at"] % 2:
    plt.figure()  # the axes need not be in the current figure
  others = [a for a in axes[0] if a is not ax]
  try:
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      if case["skip"] == 0 and case["default"]:
        out = plotting.plot_bandit_results(ax, chosen, bdata)
      else:
        out = plotting.plot_bandit_results(ax, chosen, bdata, case["skip"])
    check_plot(ax, out, chosen, bdata, case["skip"])
    require(not any(a.lines or a.collections or a.get_legend() for a in others),
            "something was drawn on other axes")
  finally:
    plt.close("all")
  require(snapshot(bdata) == before and [id(a) for a in chosen] == order,
          "plotting changed the recorded run")
  rec.nontrivial((len(chosen) > 1 and len(chosen) < len(all_arms)) or case["skip"] > 0)
  rec.label(f"{len(chosen)} arms", "all rounds" if not case["skip"] else "rounds omitted")


NAMES = ["frontdoor", "Z_1V_2", "$Z_1V_2$", "a", "arm one", "b"]


def fn_results(case, rec):
  k, n = case["k"], case["rounds"]
  rs = np.random.RandomState(case["seed"] % 2**31)
  log = banditkit.Log(1)
  made = [banditkit.StubArm(NAMES[(i + case["seed"]) % 6], [[0, 0, 0]], 1, log)
          for i in range(k)]
  wrap = np.array if case["arrays"] else list
  cum = np.cumsum(rs.randint(1, 50, n)).tolist()
  lo, mid, hi, sam = {}, {}, {}, {}
  for a in made:
    t = np.sort(rs.uniform(0, 9, size=(3, n)), axis=0)
    inf = case["inf"] if n else 0
    if case["free"]:  # an estimate may lie outside its bounds, and start undefined
      t[1] = rs.uniform(-9, 18, n)
      t[1, :inf] = np.nan
    t[2, :inf] = np.inf
    lo[a], mid[a], hi[a] = (wrap(q.tolist()) for q in t)
    sam[a] = wrap([10] * n)
  bdata = bandits.BanditData(lo, hi, mid, sam, wrap(cum), [made[0]])
  draw_and_check(bdata, made, case, rec)


def st_pick():
  return st.lists(st.integers(0, 4), min_size=1, max_size=4)


def st_results():
  return st.fixed_dictionaries(dict(
      k=st.integers(1, 5), rounds=st.one_of(st.integers(1, 12), st.sampled_from([40, 300])),
      pick=st_pick(),
      skip=st.sampled_from([0, 0, 1, 2, 3, 5, 20]), default=st.booleans(),
      axes=st.sampled_from([1, 2, 3]), at=st.integers(0, 5), arrays=st.booleans(),
      inf=st.sampled_from([0, 0, 0, 1, 3]),
      free=st.booleans(), seed=st.integers(0, 10**6)))


def fn_run(case, rec):
  run = banditkit.Run(case["run"])
  draw_and_check(run.result, run.arms, case, rec)


def st_run():
  return st.fixed_dictionaries(dict(
      run=banditkit.st_run(), pick=st_pick(), skip=st.sampled_from([0, 1, 2]),
      default=st.booleans(), axes=st.sampled_from([1, 2]), at=st.integers(0, 3),
      seed=st.integers(0, 2**31)))


def fn_surface(case, rec):
  a, b, c = case["coef"]
  f1 = lambda x, y: a * x + b * y + c * x * y * y + .5 * np.sin(x)

  def f(q):
    q = np.asarray(q, dtype=float)
    require(q.ndim == 2 and q.shape[1] == 2, "the function is given a wrong shape",
            got=q.shape)
    v = f1(q[:, 0], q[:, 1])
    return v[:, None] if case["column"] else v

  xl, yl = case["xl"], case["yl"]
  xh, yh = xl + case["xs"], yl + case["ys"]
  plt.close("all")
  try:
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      plotting.plot_3d_function(f, xl, xh, yl, yh)
    found = [ax for fig in map(plt.figure, plt.get_fignums()) for ax in fig.axes
             if hasattr(ax, "get_zlim")]
    require(len(found) == 1, "not one 3d plot", got=len(found))
    coll = found[0].collections
    require(len(coll) == 1, "not one surface", got=len(coll))
    pts = vertices(coll[0])
  finally:
    plt.close("all")
  x, y, z = pts.T
  for nm, v, l, h in (("x", x, xl, xh), ("y", y, yl, yh)):
    span = 1e-9 * (1 + abs(l) + abs(h))
    require(abs(v.min() - l) <= span and abs(v.max() - h) <= span,
            f"the {nm} range of the surface", got=(v.min(), v.max()), want=(l, h))
    require(len(np.unique(np.round(v, 9))) >= 10, f"too few {nm} coordinates")
  require(np.allclose(z, f1(x, y), rtol=1e-7, atol=1e-7), "the heights are not the "
          "function's values at their coordinates", got=z[:4].tolist(),
          want=f1(x, y)[:4].tolist())
  rec.nontrivial((xl, xh) != (yl, yh))


def vertices(c):
  """All vertices of a surface."""
  faces = getattr(c, "_faces", None)
  if faces is not None:
    return np.asarray(faces, dtype=float).reshape(-1, 3)
  return np.asarray(c._vec, dtype=float)[:3].T


def st_surface():
  coef = st.sampled_from([-2.0, .5, 1.0, 3.0])
  return st.fixed_dictionaries(dict(
      coef=st.tuples(coef, coef, coef).map(list), column=st.booleans(),
      xl=st.sampled_from([-3, -1, 0, 2]), xs=st.sampled_from([1, 2, 5.5]),
      yl=st.sampled_from([-3, -1, 0, 2]), ys=st.sampled_from([1, 2, 5.5]),
      seed=st.just(0)))


SUBS = [Sub("results", st_results, fn_results, 1600),
        Sub("run", st_run, fn_run, 480),
        Sub("surface", st_surface, fn_surface, 40, 300)]
