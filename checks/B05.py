"""Arms receive the right data and error budget."""
import numpy as np
from hypothesis import strategies as st

from vlib import banditkit
from vlib.core import Sub, require

ID = "B05"
RULE = ("stub: the data and error probability given to every update of runs over recording "
        "arms, each unit being identifiable, and runs on fixed data repeated with just the units used; non-trivial = two arms updated a different "
        "number of times, or three rounds. real: the same with real sample-splitting arms, "
        "also checking that each arm's nuisance parameter saw exactly that arm's units. "
        "short: runs on data sets that mostly run out; non-trivial = an arm reached the end. "
        "continued: 2-4 runs by generated algorithms over the same arms, mostly without a reset "
        "in between, with different round sizes; non-trivial = a run without a reset before it")


def judge(run, rec):
  seen = banditkit.check_data(run)
  rec.label(run.case["algo"], "fixed data" if run.fixed is not None else "generated data")
  n = [len(s) for s in seen]
  if len(set(n)) > 1:
    rec.label("uneven sampling")
  rec.nontrivial(len(set(n)) > 1 or min(n) >= 3 * run.case["units"])
  return seen


def fn_stub(case, rec):
  judge(banditkit.repeat_on_exact_data(banditkit.Run, case), rec)


def fn_real(case, rec):
  run = banditkit.repeat_on_exact_data(banditkit.RealRun, case)
  seen = judge(run, rec)
  for a, s in zip(run.arms, seen):
    got = set()
    for op, key, _ in a.eta.calls:
      got |= set(key)
    require(got <= set(s), f"{a.name}: its nuisance parameter was given other arms' units",
            got=sorted(got - set(s)))
    require(a.get_num_units() == len(s), f"{a.name}: number of units",
            got=a.get_num_units(), want=len(s))


def fn_short(case, rec):
  """A data set that runs out is read to its end, and no part of it twice."""
  np.random.seed(case["seed"] % 2**32)
  run = banditkit.Run(case)
  seen = banditkit.check_data(run)
  out = [i for i, s in enumerate(seen) if run.pulled.count(i) * case["units"] > len(s)]
  rec.nontrivial(bool(out))
  rec.label("ran out" if out else "long enough", case["algo"])


@st.composite
def st_short(draw):
  case = draw(banditkit.st_run())
  return dict(case, fixed=True, rows=draw(st.integers(1, 4 * case["units"] + 3)))


def fn_continued(case, rec):
  """Several runs over the same arms without resets: every arm reads on."""
  k = len(case["costs"])
  base = dict(case, traces=[t + [[m, m, m]] for t, m in zip(case["traces"], case["ends"])])
  log = banditkit.Log(0)
  arms = [banditkit.StubArm(f"arm{i}", t, c, log)
          for i, (t, c) in enumerate(zip(base["traces"], case["costs"]))]
  gen = banditkit.Generator(10**7 if case["fixed"] else 0)
  seen = None
  rows = 10 * (len(case["runs"]) * (case["limit"] + 30 * k) + 100)
  fixed = banditkit.table(0, rows) if case["fixed"] else None
  for j, r in enumerate(case["runs"]):
    run = banditkit.Run(dict(base, algo=r["algo"], units=r["units"], fixed=False), log, arms,
                        gen, do=False)
    run.fixed = fixed
    log.budget = len(log.events) + case["limit"] + 3 * k + 10
    if r["reset"]:
      run.bandit.reset()
      seen = None
    run.run()
    seen = banditkit.check_data(run, seen)
    if j and len({len(s) for s in seen}) > 1:
      rec.label("continued from unequal positions")
  rec.label(*(r["algo"] for r in case["runs"]))
  rec.nontrivial(any(not r["reset"] for r in case["runs"][1:]))


@st.composite
def st_continued(draw):
  k = draw(st.integers(2, 4))
  entry = banditkit.st_entry(False, draw(st.sampled_from([1, 4])))
  run = st.fixed_dictionaries(dict(algo=st.sampled_from(sorted(banditkit.ALGOS)),
                                   units=st.sampled_from([1, 2, 5]),
                                   reset=st.sampled_from([False, False, False, True])))
  return dict(costs=[draw(st.sampled_from(banditkit.COSTS)) for _ in range(k)],
              traces=[draw(st.lists(entry, min_size=1, max_size=5)) for _ in range(k)],
              ends=draw(st.lists(banditkit.quarter(0, 6), min_size=k, max_size=k)),
              runs=draw(st.lists(run, min_size=2, max_size=4)),
              limit=draw(st.integers(0, 40)), tol=draw(st.sampled_from([0, 0, .5])),
              fixed=draw(st.sampled_from([True, True, False])),
              error_prob=draw(st.sampled_from([.05, .5])), confidence=.05,
              seed=draw(st.integers(0, 2**31)))


SUBS = [Sub("stub", banditkit.st_run, fn_stub, 2600),
        Sub("short", st_short, fn_short, 900),
        Sub("real", banditkit.st_real, fn_real, 600),
        Sub("continued", st_continued, fn_continued, 900)]
