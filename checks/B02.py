"""Each algorithm samples exactly the arms its rule selects."""
from vlib import banditkit
from vlib.core import Sub

ID = "B02"
RULE = ("select: runs of the three algorithms over 2-5 arms with generated interval traces "
        "(ties, infinite bounds, zero widths, estimates outside their interval), costs, "
        "limits and tolerances; every round's sampled arms must be admissible; non-trivial = "
        "at least two rounds; labels name the algorithm and rarer situations. real: the same "
        "over real sample-splitting arms; non-trivial = three rounds")


def fn_select(case, rec):
  run = banditkit.Run(case)
  n = banditkit.check_selection(run)
  rec.label(case["algo"])
  label(run, rec)
  rec.nontrivial(n > 1)


def label(run, rec):
  tie = drop = infinite = False
  for r, chunk, n, before, after, cand in run.rounds():
    vals = [run.values(i, after[i]) for i in range(len(run.arms))]
    ests = [v[1] for v in vals]
    tie |= ests.count(min(ests)) > 1
    infinite |= any(v[2] == banditkit.INF for v in vals)
    drop |= len(cand) < len(run.arms)
  rec.label(*[l for l, c in (("tied estimates", tie), ("infinite bound", infinite),
                             ("sampled after an elimination", drop)) if c])


def fn_real(case, rec):
  run = banditkit.RealRun(case)
  n = banditkit.check_selection(run)
  rec.label(case["algo"])
  label(run, rec)
  rec.nontrivial(n > 2)


SUBS = [Sub("select", banditkit.st_run, fn_select, 3000),
        Sub("real", banditkit.st_real, fn_real, 500)]
