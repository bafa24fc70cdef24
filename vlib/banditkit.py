"""Bandit runs over recording arms with generated interval traces."""
import numpy as np
from hypothesis import strategies as st

from vlib import armkit, repo
from vlib.core import Undecided, Violation, near, require

data, arms, bandits = repo.load("data", "arms", "bandits")
ALGOS = {"uniform": bandits.UniformAlgorithm, "lucb": bandits.LUCBAlgorithm,
         "se": bandits.SuccessiveEliminationAlgorithm}
INF = float("inf")


def num(v):
  return INF if v == "inf" else float(v)


class Overrun(Violation):
  """A run does not stop."""


class Fault(Exception):
  """Raised by an arm or a generator that was told to fail."""


class Log:

  def __init__(self, budget):
    self.events = []
    self.budget = budget
    self.fail_in = None  # the number of events before a fault

  def add(self, ev):
    if self.fail_in is not None:
      if not self.fail_in:
        raise Fault()
      self.fail_in -= 1
    self.events.append(ev)
    if len(self.events) > self.budget:
      raise Overrun(f"the run did not stop: {len(self.events)} arm updates")


class NoEta(armkit.parameters.NuisanceParameter):

  def reset(self):
    pass


class StubArm(arms.VarianceEstimatorArm):
  """Reports the next entry (low, estimate, high) of its trace at every update."""

  def __init__(self, name, trace, cost, log):
    super().__init__(name, NoEta(), lambda d: d, cost)
    self.trace = [tuple(num(v) for v in t) for t in trace]
    self.log = log
    self.resets = 0
    self.clear()

  def clear(self):
    self.k = 0
    self.units = 0

  def cur(self):
    return self.trace[min(self.k, len(self.trace)) - 1]

  def update(self, new_data, delta):
    self.k += 1
    self.units += len(new_data)
    self.log.add((self, new_data, delta))
    return self.ci

  def reset(self):
    self.resets += 1
    self.clear()

  def get_num_units(self):
    return self.units

  @property
  def ci(self):
    return (self.cur()[0], self.cur()[2]) if self.k else (-INF, INF)

  @property
  def var_est(self):
    return self.cur()[1] if self.k else None

  @property
  def ate(self):
    return 0.0 if self.k else None

  @property
  def num_pulled(self):
    return self.k


class Generator(data.DataGenerator):
  """Generates units with consecutive numbers."""

  def __init__(self, first=0):
    super().__init__("generator")
    self.n = 0
    self.first = first
    self.calls = []

  def generate(self, n_samples):
    if getattr(self, "fail_in", None) is not None:
      if not self.fail_in:
        raise Fault()
      self.fail_in -= 1
    self.calls.append(n_samples)
    r = table(self.first + self.n, self.first + self.n + n_samples)
    self.n += n_samples
    return r


class LoggedArm(arms.SampleSplittingArm):
  """A real arm that remembers what it published after every update."""

  def setup(self, log):
    self.log = log
    self.hist = []

  def update(self, new_data, delta):
    out = super().update(new_data, delta)
    self.hist.append((float(self.ci[0]), float(self.var_est), float(self.ci[1])))
    self.log.add((self, new_data, delta))
    return out

  def reset(self):
    super().reset()
    self.hist = []


class PoolGenerator(data.DataGenerator):
  """Hands out the units of a pool in order, or (last >= 0) backwards from the last."""

  def __init__(self, pool, last=-1):
    super().__init__("pool")
    self.pool = pool
    self.n = 0
    self.last = last

  def generate(self, n_samples):
    if getattr(self, "fail_in", None) is not None:
      if not self.fail_in:
        raise Fault()
      self.fail_in -= 1
    r = self.pool.take([i if self.last < 0 else self.last - i
                        for i in range(self.n, self.n + n_samples)])
    self.n += n_samples
    return r


def table(a, b):
  return rows(np.arange(a, b))


def rows(i):
  i = np.asarray(i, dtype=int)
  return data.ExpData(i[:, None].astype(float), i % 2, i.astype(float))


def ids(d):
  return [int(v) for v in d.rsp]


# ------------------------------------------------------------------ generation
def quarter(lo, hi, step=1):
  """Multiples of a quarter (or of step quarters) in an interval."""
  return st.integers(lo * 4 // step, hi * 4 // step).map(lambda v: v * step / 4)


@st.composite
def st_entry(draw, inside=False, step=1):
  """One (low, estimate, high); quarters keep all later arithmetic exact."""
  kind = draw(st.sampled_from(["interval"] * 7 + ["narrow", "narrow", "point", "point",
                                                  "vacuous", "inf", "any", "negative"]))
  if kind == "vacuous":
    return [0, "inf", "inf"]
  a, b, c = sorted(draw(st.tuples(*[quarter(0, 6, step)] * 3)))
  if kind == "point":
    return [b, b, b]
  if kind == "narrow":
    w = draw(st.sampled_from([.25, .5]))
    return [max(b - w, 0), b, b + w]
  if kind == "inf":
    return [0, b, "inf"]
  if kind == "negative":
    return [-a, b, c]
  if kind == "any" and not inside:
    return [a, draw(quarter(0, 6)), c]
  return [a, b, c]


COSTS = [1, 1, 1, 2, .5, 3, .25]


@st.composite
def st_run(draw, algos=("uniform", "lucb", "se"), max_arms=5):
  algo = draw(st.sampled_from(algos))
  size = draw(st.integers(0, 24))  # some runs are of unusual size
  k = draw(st.sampled_from([17, 33]) if size == 24 else
           st.integers(2, max_arms) | st.just(2 * max_arms))
  u = draw(st.sampled_from([100, 256] if size == 23 else [1, 2, 5, 10]))
  rep = draw(st.sampled_from([10, 30])) if size == 22 else 1
  unlimited = draw(st.booleans())
  t = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 6, 12]))
  step = draw(st.sampled_from([1, 1, 4, 6]))  # coarse steps: many coincidences
  same_cost = draw(st.booleans())
  costs = [draw(st.sampled_from(COSTS)) if not same_cost else 1 for _ in range(k)]
  tied = draw(st.integers(0, 4)) == 0  # many equal entries
  pool = [draw(st_entry(unlimited, step)) for _ in range(2 if tied else 8 * (k > 16))]
  ent = st.sampled_from(pool) if pool else st_entry(unlimited, step)
  traces = [[draw(ent) for _ in range(draw(st.integers(1, t)))] * rep for _ in range(k)]
  if draw(st.integers(0, 5)) == 0:
    # Near ties: entries are moved by multiples of a tiny power of two (still exact).
    rs = np.random.RandomState(draw(st.integers(0, 2**31)))
    traces = [[[v if v == "inf" else v + j * 2.0**-34 for v in e] if e[1] != "inf" else e
               for e in t for j in [int(rs.randint(4))]] for t in traces]
  m = draw(st.permutations([3 * (i + 1) for i in range(k)]))
  if unlimited or draw(st.booleans()):
    # Finally all intervals are distinct points.
    for i in range(k):
      v = m[i] / costs[i]
      traces[i].append([v, v, v])
  if unlimited:
    limit = draw(st.sampled_from([None, "inf", 10**9]))
  else:
    limit = max(0, draw(st.integers(0, 6 * k)) * u * rep + draw(st.sampled_from([-1, 0, 0, 1])))
  tol = draw(st.sampled_from([0, 0, 0, .25, .5, 1, 2.5]))
  return dict(algo=algo, costs=costs, traces=traces, units=u, limit=limit, tol=tol,
              fixed=draw(st.booleans()), error_prob=draw(st.sampled_from([.05, .1, .5, .9])),
              confidence=draw(st.sampled_from([.05, .9] if unlimited else [None, .05])),
              seed=draw(st.integers(0, 2**31)))


def arm_name(case, i):
  """Names need not be unique."""
  return "arm" if case["seed"] % 7 == 3 else f"arm{i}"


class Run:
  """A run of one algorithm over stub arms."""

  def __init__(self, case, log=None, arm_list=None, generator=None, do=True):
    self.case = case
    k = len(case["costs"])
    longest = sum(len(t) for t in case["traces"])
    lim = case["limit"]
    rounds = 0 if lim in (None, "inf") or lim > 10**8 else lim // case["units"] + 2 * k + 2
    self.log = log or Log(k * longest + 600 + 2 * rounds)
    self.arms = arm_list or [StubArm(arm_name(case, i), t, c, self.log)
                             for i, (t, c) in enumerate(zip(case["traces"], case["costs"]))]
    shared, self.arms = self.arms, list(self.arms)  # bandits may share one list
    self.index = {id(a): i for i, a in enumerate(self.arms)}
    # With fixed data, other units come from the generator.
    self.gen = generator or Generator(10**6 if case["fixed"] else 0)
    self.fixed = None
    if case["fixed"]:
      self.fixed = table(0, case.get("rows") or case["units"] * (self.log.budget + 5))
    self.limit = None if lim is None else num(lim)
    settings = dict(error_prob=case["error_prob"], error_tol=case["tol"],
                    sample_limit=self.limit)
    if case.get("omit", case["seed"] % 2):  # leave out what is the default
      for name, value in (("error_prob", .05), ("error_tol", 0), ("sample_limit", None)):
        if settings[name] == value:
          del settings[name]
    self.bandit = ALGOS[case["algo"]](
        shared, self.gen, confidence=case["confidence"], units_per_round=case["units"],
        **settings)
    if do:
      self.run()

  def run(self):
    n = len(self.log.events)
    try:
      self.result = (self.bandit.run(self.fixed) if self.fixed is not None
                     else self.bandit.run())
    except Overrun:
      self.events = self.log.events[n:]
      self.pulled = [self.index[id(e[0])] for e in self.events]
      before = [sum(self.index[id(e[0])] == i for e in self.log.events[:n])
                for i in range(len(self.arms))]
      if self.endless_ties(before):
        raise Undecided("endless ties") from None
      raise
    self.events = self.log.events[n:]
    self.pulled = [self.index[id(e[0])] for e in self.events]
    return self.result

  def endless_ties(self, start):
    """Every choice was an admissible one among several, and nothing said stop."""
    if self.case["algo"] != "lucb" or (
        self.limit is not None and self.limit <= 10**8):
      return False
    last = None
    for r, chunk, n, before, after, _ in self.rounds(start):
      if r:
        last = self.lucb_pairs(before)
        if len(chunk) == n and frozenset(chunk) not in last:
          return False
      if r and len(chunk) == n and self.confident(after)[1]:
        return False
    return len(last) > 1

  # Values of an arm after j pulls, adjusted for cost.
  def values(self, i, j):
    a = self.arms[i]
    lo, v, hi = a.trace[min(j, len(a.trace)) - 1]
    return a.cost * lo, a.cost * v, a.cost * hi

  def best(self):
    """Indices of the returned arms."""
    out = []
    for a in self.result.best_arm:
      require(id(a) in self.index, "the result contains an unknown arm", got=a)
      out.append(self.index[id(a)])
    require(len(set(out)) == len(out), "an arm is returned twice", got=out)
    return out

  # ------------------------------------------------------------- reference
  def lucb_pairs(self, pulls):
    """All admissible pairs to sample next."""
    k = len(self.arms)
    val = [self.values(i, pulls[i]) for i in range(k)]
    low = min(v[1] for v in val)
    tied = [i for i in range(k) if val[i][1] == low]
    if len(tied) == k:
      return {frozenset((i, j)) for i in range(k) for j in range(i)}
    others = [i for i in range(k) if i not in tied]
    hu = max(val[i][2] for i in tied)
    ll = min(val[i][0] for i in others)
    return {frozenset((i, j)) for i in tied if val[i][2] == hu for j in others
            if val[j][0] == ll}

  def se_survivors(self, cand, pulls):
    val = {i: self.values(i, pulls[i]) for i in cand}
    low = min(v[1] for v in val.values())
    ucb = min(v[2] for v in val.values() if v[1] == low)
    return [i for i in cand if val[i][1] == low or val[i][0] < ucb]

  def confident(self, pulls):
    """(arms that may be returned, all tied arms agree) of the confidence rule."""
    k = len(self.arms)
    val = [self.values(i, pulls[i]) for i in range(k)]
    if any(np.isinf(v[2]) for v in val):
      return [], False
    low = min(v[1] for v in val)
    tied = [i for i in range(k) if val[i][1] == low]
    good = [i for i in tied if val[i][2] < min(
        val[j][0] for j in range(k) if j != i) + self.case["tol"]]
    return good, len(good) == len(tied)

  def minimal(self, cand, pulls):
    v = {i: self.values(i, pulls[i])[1] for i in cand}
    low = min(v.values())
    return {i for i in cand if v[i] == low}

  def rounds(self, start=None):
    """Splits the updates into rounds by the algorithm's own rule; a generator of
    (round number, sampled indices, pulls after the round, candidates)."""
    k = len(self.arms)
    algo = self.case["algo"]
    pulls = list(start or [0] * k)
    cand = list(range(k))
    pos = r = 0
    while pos < len(self.pulled):
      n = k if algo == "uniform" or (algo == "lucb" and r == 0) else (
          2 if algo == "lucb" else len(cand))
      chunk = self.pulled[pos:pos + n]
      before = list(pulls)
      for i in chunk:
        pulls[i] += 1
      yield r, chunk, n, before, list(pulls), list(cand)
      if algo == "se":
        cand = self.se_survivors(cand, pulls)
      pos += n
      r += 1

  def recorded_values(self, i, j):
    return self.values(i, j)


@st.composite
def st_real(draw, algos=("uniform", "lucb", "se")):
  k = draw(st.integers(2, 4))
  u = draw(st.sampled_from([2, 3, 5, 8, 20]))
  one = draw(st.sampled_from(["CHI2", "CLT", "FINITE", None]))
  arm = st.fixed_dictionaries(dict(
      alg=st.sampled_from(["CHI2", "CLT", "FINITE"]) if not one else st.just(one),
      stable=st.booleans(), need=st.sampled_from([0, 1, 3, 12]),
      scores=st.sampled_from(["normal", "normal", "normal", "const", "big", "small", "heavy",
                              "binary"]),
      width=st.sampled_from([0, .01, .1, "inf"]), tr=st.sampled_from(armkit.TRANSFORMS),
      settings=st.fixed_dictionaries(dict(burn_in=st.sampled_from([2, 6]),
                                          sub_gscale=st.sampled_from([1, .1]),
                                          tau_bound=st.sampled_from([1, .2])))))
  specs = draw(st.lists(arm, min_size=k, max_size=k))
  same = draw(st.integers(0, 3)) == 0
  if same:
    specs = [dict(specs[0]) for _ in range(k)]
  limit = max(0, draw(st.integers(0, 9 * k)) * u + draw(st.sampled_from([-1, 0, 0, 1])))
  return dict(algo=draw(st.sampled_from(algos)), arms=specs, units=u, limit=limit,
              costs=[draw(st.sampled_from(COSTS)) if not same else 1 for _ in range(k)],
              tol=draw(st.sampled_from([0, 0, .1, 2])), fixed=draw(st.booleans()),
              error_prob=draw(st.sampled_from([.05, .1, .5, .9])),
              confidence=draw(st.sampled_from([None, .05])),
              seed=draw(st.integers(0, 2**31)))


def make_real(case, pool, log):
  made = []
  for i, (spec, cost) in enumerate(zip(case["arms"], case["costs"])):
    tr, tcov = armkit.transformer(spec["tr"])
    eta = spec.get("eta")
    eta = eta() if eta else armkit.RecorderEta(pool, tcov, spec)
    a = LoggedArm(arm_name(case, i), eta, tr, ci_algorithm=armkit.ALGS[spec["alg"]],
                  stable_splits=spec["stable"],
                  **dict(armkit.BASE, **dict(spec["settings"], cost=cost)))
    a.setup(log)
    made.append(a)
  return made


class RealRun(Run):
  """A run over real sample-splitting arms with recording nuisance parameters."""

  def __init__(self, case):
    k = len(case["costs"])
    n = (case["limit"] + 3 * k * case["units"] + 10) * (2 if case.get("again") else 1)
    log = Log(n)
    self.pool = armkit.Pool(n, case["seed"] % 1000)
    made = make_real(case, self.pool, log)
    super().__init__(dict(case, traces=[[]] * k), log, made,
                     PoolGenerator(self.pool, n - 1 if case["fixed"] else -1),
                     do=False)
    if case["fixed"]:
      self.fixed = self.pool.take(range(case.get("rows") or n))
    self.run()

  def values(self, i, j):
    a = self.arms[i]
    lo, v, hi = a.hist[j - 1]
    return a.cost * lo, a.cost * v, a.cost * hi


def check_data(run, seen=None):
  """B05; seen are the units the arms were given in earlier runs."""
  k = len(run.arms)
  u = run.case["units"]
  pool = getattr(run, "pool", None)
  seen = seen or [[] for _ in range(k)]
  produced = run.gen.n
  for n, (arm, d, delta) in enumerate(run.events):
    i = run.index[id(arm)]
    what = f"{run.case['algo']}, update {n} ({arm.name})"
    require(abs(delta - run.case["error_prob"] / k) <= 1e-12, f"{what}: error probability",
            got=delta, want=run.case["error_prob"] / k)
    got = ids(d)
    if run.fixed is not None:  # a data set may run out
      want = list(range(len(seen[i]), min(len(seen[i]) + u, len(run.fixed))))
    require(len(d) == len(got) and (run.fixed is not None or len(got) == u),
            f"{what}: {len(got)} units", length=len(d), want=u)
    ref = pool.take(got) if pool is not None else rows(got)
    require(np.array_equal(d.cov, ref.cov) and np.array_equal(d.exp, ref.exp),
            f"{what}: covariates, exposures and responses do not belong together")
    if run.fixed is not None:
      require(got == want, f"{what}: not the next slice of the data", got=got, want=want)
    else:
      require(len(set(got)) == u and not set(got) & set(seen[i]),
              f"{what}: units repeated for this arm", got=got, again=sorted(
                  set(got) & set(seen[i])))
      require(all(0 <= q < produced for q in got), f"{what}: units not generated", got=got)
    seen[i] += got
  return seen


def repeat_on_exact_data(make, case):
  """Runs on a long data set and again on one with just the units that were used."""
  np.random.seed(case["seed"] % 2**32)
  run = make(case)
  if run.fixed is not None:
    used = max(run.pulled.count(i) for i in range(len(run.arms))) * case["units"]
    np.random.seed(case["seed"] % 2**32)
    again = make(dict(case, rows=used))
    same_outcome(outcome(again), outcome(run), "run on a data set with just enough units")
  return run


def outcome(run):
  """Everything a run did and returned, in comparable form."""
  res = run.result
  per = lambda m: [[float(v) for v in m[a]] for a in run.arms]
  return dict(updates=[(run.index[id(a)], [float(v) for v in d.rsp], delta)
                       for a, d, delta in run.events],
              cum=[float(v) for v in res.cum_samples], best=sorted(run.best()),
              lcb=per(res.lcb_by_arm), ucb=per(res.ucb_by_arm),
              var=per(res.var_est_by_arm), samples=per(res.samples_by_arm))


def same_outcome(a, b, what):
  for k in a:
    require(repr(a[k]) == repr(b[k]), f"{what}: {k} differs", got=repr(a[k])[:600],
            want=repr(b[k])[:600])


def check_selection(run):
  """B02."""
  algo = run.case["algo"]
  k = len(run.arms)
  require(run.pulled, "no arm was sampled")
  last = None
  for r, chunk, n, before, after, cand in run.rounds():
    what = f"{algo}, round {r}"
    require(len(chunk) == n, f"{what}: {len(chunk)} updates instead of {n}",
            sampled=chunk, candidates=cand)
    require(len(set(chunk)) == n, f"{what}: an arm was sampled twice", sampled=chunk)
    if algo == "se":
      require(len(cand) > 1, f"{what}: sampled although one arm was left", left=cand)
      require(set(chunk) == set(cand), f"{what}: sampled arms are not the survivors",
              sampled=sorted(chunk), survivors=sorted(cand),
              values=[run.values(i, before[i]) for i in range(k)] if r else None)
    elif algo == "lucb" and r:
      pairs = run.lucb_pairs(before)
      require(frozenset(chunk) in pairs, f"{what}: sampled arms are not selected by the rule",
              sampled=chunk, admissible=sorted(sorted(p) for p in pairs),
              values=[run.values(i, before[i]) for i in range(k)])
    else:
      require(set(chunk) == set(range(k)), f"{what}: not every arm was sampled once",
              sampled=chunk)
    last = r
  return last + 1


def check_stop(run):
  """B03; returns how the run ended."""
  algo, u = run.case["algo"], run.case["units"]
  k = len(run.arms)
  limit = INF if run.limit is None else run.limit
  best = run.best()
  require(best, f"{algo}: the result is empty")
  rounds = list(run.rounds())
  require(rounds, f"{algo}: no arm was sampled")
  total = 0
  for j, (r, chunk, n, before, after, cand) in enumerate(rounds):
    total += len(chunk) * u
    final = j == len(rounds) - 1
    over = total > limit
    if algo == "se":
      left = run.se_survivors(cand, after)
      may, must = (left, True) if len(left) == 1 else ([], False)
    elif algo == "lucb" and r == 0:
      left, may, must = list(range(k)), [], False
    else:
      left = list(range(k))
      may, must = run.confident(after)
    vals = [run.values(i, after[i]) for i in range(k)]
    info = dict(round=r, total=total, limit=limit, tol=run.case["tol"], values=vals,
                survivors=left)
    if not final:
      require(not over, f"{algo}: sampled on although the limit was exceeded", **info)
      require(not must, f"{algo}: sampled on although the confidence rule holds", **info)
      continue
    require(over or may, f"{algo}: stopped without a reason", returned=best, **info)
    ok = False
    ended = "limit"
    if may and len(best) == 1 and best[0] in may:
      ok, ended = True, "confidence"
    if over and set(best) == run.minimal(left, after):
      ok = True
    require(ok, f"{algo}: wrong arms returned", returned=best, confident=may,
            at_limit=sorted(run.minimal(left, after)) if over else None, **info)
    return ended


def check_record(run, pulls=None):
  """B01, for stub and logged real arms, which had the given numbers of updates before;
  returns the number of rounds."""
  res = run.result
  k = len(run.arms)
  cum = list(res.cum_samples)
  n = len(cum)
  require(n > 0 or not run.events, "no rounds are recorded")
  for name in ("lcb_by_arm", "ucb_by_arm", "var_est_by_arm", "samples_by_arm"):
    m = getattr(res, name)
    require(set(id(a) for a in m) == set(run.index), f"{name}: keys are not the arms")
    for a in m:
      require(len(m[a]) == n, f"{name}: {len(m[a])} entries for {n} rounds", arm=a.name)
  pos, tot = 0, 0
  pulls = list(pulls or [0] * k)
  for r in range(n):
    rec = [float(res.samples_by_arm[a][r]) for a in run.arms]
    require(all(s >= 0 for s in rec), f"round {r}: negative samples", got=rec)
    m = sum(s > 0 for s in rec)
    chunk = run.events[pos:pos + m]
    pos += m
    got = [0.0] * k
    for e in chunk:
      i = run.index[id(e[0])]
      got[i] += len(e[1])
      pulls[i] += 1
    require(got == rec, f"round {r}: recorded samples are not those of the updates",
            recorded=rec, updates=got)
    tot += sum(rec)
    require(float(cum[r]) == tot, f"round {r}: cumulative samples", got=cum[r], want=tot)
    for i, a in enumerate(run.arms):
      want = run.recorded_values(i, pulls[i])
      have = (res.lcb_by_arm[a][r], res.var_est_by_arm[a][r], res.ucb_by_arm[a][r])
      for nm, h, w in zip(("lower bound", "estimate", "upper bound"), have, want):
        h = float(h)
        require(near(h, w, 1e-12),
                f"round {r}: recorded {nm} of {a.name}", got=h, want=w, pulls=pulls[i])
  require(pos == len(run.events), f"{len(run.events) - pos} updates are not recorded")
  return n
