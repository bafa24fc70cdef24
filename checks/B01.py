"""Run records account exactly for what happened."""
from hypothesis import strategies as st

from vlib import banditkit
from vlib.core import Sub

ID = "B01"
RULE = ("stub: runs of the three algorithms over recording arms with generated interval "
        "traces, costs, limits and round sizes, each round of the record compared with the "
        "updates the arms received and the values they then had; non-trivial = at least "
        "three rounds, or two with an arm left out. real: the same with real "
        "sample-splitting arms; non-trivial = three rounds")


def judge(run, rec, least):
  n = banditkit.check_record(run)
  if run.case["again"]:  # the arms go on from where they are
    pulls = [run.pulled.count(i) for i in range(len(run.arms))]
    run.log.budget *= 2
    run.run()
    n = max(n, banditkit.check_record(run, pulls))
    rec.label("a second run without reset")
  rec.label(run.case["algo"], "fixed data" if run.fixed is not None else "generated data")
  left_out = any(len(set(c)) < len(run.arms) for _, c, *_ in run.rounds())
  if left_out:
    rec.label("arms left out")
  rec.nontrivial(n >= least or (n > 1 and left_out))


def fn_stub(case, rec):
  judge(banditkit.Run(case), rec, 3)


def fn_real(case, rec):
  judge(banditkit.RealRun(case), rec, 3)


def again(runs):
  return st.tuples(runs, st.booleans()).map(lambda t: dict(t[0], again=t[1]))


SUBS = [Sub("stub", lambda: again(banditkit.st_run()), fn_stub, 2600),
        Sub("real", lambda: again(banditkit.st_real()), fn_real, 600)]
