"""Runs stop exactly when they should, with the right arms."""
from vlib import banditkit
from vlib.core import Sub

ID = "B03"
RULE = ("stop: runs of the three algorithms over generated interval traces with sample "
        "limits at and around round boundaries (or none), tolerances, costs and ties; the "
        "stopping round and the returned arms are checked against the rules; non-trivial = "
        "at least two rounds; labels say how the run ended. real: the same over real "
        "sample-splitting arms; non-trivial = three rounds")


def fn_stop(case, rec):
  run = banditkit.Run(case)
  ended = banditkit.check_stop(run)
  rec.label(f"{case['algo']} ended by {ended}")
  if case["tol"]:
    rec.label("positive tolerance")
  if len(run.best()) > 1:
    rec.label("several arms returned")
  rec.nontrivial(len(list(run.rounds())) > 1)


def fn_real(case, rec):
  run = banditkit.RealRun(case)
  ended = banditkit.check_stop(run)
  rec.label(f"{case['algo']} ended by {ended}")
  if len(run.best()) > 1:
    rec.label("several arms returned")
  rec.nontrivial(len(list(run.rounds())) > 2)


SUBS = [Sub("stop", banditkit.st_run, fn_stop, 3000),
        Sub("real", banditkit.st_real, fn_real, 500)]
