"""Results are determined by the inputs and numpy's random state."""
import os
import random

import numpy as np
from hypothesis import strategies as st

from checks import D06
from vlib import repo, server
from vlib.core import Sub, require

paper, data, arms, parameters, examples, functions = repo.load(
    "paper_utils", "data", "arms", "parameters", "example_scm", "nonlinear_utils")
ID = "E06"
RULE = ("every case runs the same program under the same numpy random state in four processes "
        "that were started separately: with different hash seeds, environments, working "
        "directories, states of Python's own random module, memory contents and earlier "
        "activity of the package; all results must agree, in the same order. objects: histories "
        "of 2-4 estimators, tables, arms, models, generators, functions, transformers and "
        "bandits; experiments: the published experiments end to end (model, sample, the three "
        "algorithms, plot); large: splitting, drawing, tabulating, fitting, scoring and updating with "
        "thousands of units. non-trivial = at least three operations, or at least two rounds")
ENV = [dict(PYTHONHASHSEED="0"),
       dict(PYTHONHASHSEED="1", TZ="Asia/Tokyo", HOME="/nonexistent"),
       dict(PYTHONHASHSEED="4242", LANG="tr_TR.UTF-8", COLUMNS="40"),
       dict(PYTHONHASHSEED="random", USER="someone", HOSTNAME="elsewhere")]


# ------------------------------------------------------- in the other processes
def used():
  """The package has been used before."""
  random.seed(5)
  np.random.seed(99)
  model, made, *_ = paper.get_section_5_1_example(
      [1, 1], [0, 1], seed=7, z_cost=1, v_cost=1, z0_cost=1, num_back_door_paths=1,
      sample_limit=100, units_per_round=10)
  for arm in made:
    arm.update(model.generate(60), .1)


def objects(case):
  clutter = [object() for _ in range(os.getpid() % 1000)]
  os.chdir(["/", "/usr", "/tmp"][os.getpid() % 3])
  out, kinds = D06.together(case)
  del clutter
  return out, kinds


def experiments(case):
  os.chdir(["/", "/usr", "/tmp"][os.getpid() % 3])
  np.random.seed(case["glob"] % 2**32)
  m = case["m"]
  limit = case["rounds"] * case["units"] * (1 + 2**m) // 2
  build = getattr(paper, f"get_section_5_{case['family']}_example")
  model, made, lucb, se, uniform = build(
      case["z"][:m + 1], [0] + case["v"][:m], seed=case["seed"] % 1000, z_cost=1, v_cost=2,
      z0_cost=case["z0"], num_back_door_paths=m, sample_limit=limit,
      units_per_round=case["units"], latex_names=case["latex"])
  d = model.generate(20)
  out = [("names", "/".join(a.name for a in made)), ("costs", [a.cost for a in made])]
  out += D06.flat("sample", d)
  out += [("effect", model.compute_treatment_effect(50))]
  full = model.generate(case["units"] * (case["rounds"] + 3)) if case["given"] else None
  for i in case["order"]:
    name, bandit = (("lucb", lucb), ("se", se), ("uniform", uniform))[i]
    bandit.reset()
    r = bandit.run(full) if case["given"] else bandit.run()
    out += [(f"{name}: cumulative samples", r.cum_samples),
            (f"{name}: returned arms", [made.index(a) for a in r.best_arm])]
    for f in ("lcb_by_arm", "ucb_by_arm", "var_est_by_arm", "samples_by_arm"):
      rec = getattr(r, f)
      out += [(f"{name}: {f} order", [made.index(a) for a in rec])]
      out += [(f"{name}: {f} {j}", rec[a]) for j, a in enumerate(made)]
  return [(n, v if isinstance(v, str) else D06.copy(v)) for n, v in out]


def large(case):
  np.random.seed(case["seed"] % 2**32)
  n, d = case["n"], 2
  gen = data.LinearDataGenerator("g", d, np.array([1., -2.]), 1.5, gamma=np.array([.5, .2]))
  full = gen.generate(n)
  out = D06.flat("sample", full)
  for i, f in enumerate(full.k_fold(case["k"])):
    out += D06.flat(f"fold {i}", f)
  for i, f in enumerate(full.subsample(case["p"])):
    out += D06.flat(f"part {i}", f)
  for name in ("back_door_scm", "frontdoor_scm"):
    model, truth = getattr(examples, name)()
    o = model.generate(n)
    out += D06.flat(name, o) + [(f"{name} effect", model.compute_treatment_effect(n)),
                                (f"{name} parameters", [truth[k] for k in sorted(truth)])]
    cpd = data.TabularCPD(10)
    cpd.fit(o.exp, o.cov)
    out += [(f"{name} support", cpd.z_support()), (f"{name} table", cpd.predict(o.exp, o.cov))]
  f = functions.generate_random_nd_function(1, 2, alpha=1.0)
  out += [("function", f(full.cov[:, :1]))]
  for kind in ("LinearParameterBinaryTreatment", "AIPWLinearLogistic"):
    arm = arms.SampleSplittingArm("a", getattr(parameters, kind)(d), data.get_identity_fn(),
                                  arms.CIAlgorithm.CLT, stable_splits=case["stable"])
    for part in (full, gen.generate(n // 2)):
      arm.update(part, .1)
      out += [(f"{kind} arm", [*arm.ci, arm.ate, arm.var_est, arm.get_num_units()])]
  boot = arms.BootstrapArm("b", parameters.LinearParameterBinaryTreatment(d),
                           data.get_identity_fn(), 5, case["stable"])
  boot.update(full, .3)
  out += [("bootstrap arm", [*boot.ci, boot.ate, boot.var_est])]
  return [(n, D06.copy(v)) for n, v in out]


# ---------------------------------------------------------------- in this one
def everywhere(name, case):
  out = []
  for i, env in enumerate(ENV):
    s = server.get(i, ID, env, "used" if i == 3 else "")
    out.append(s.ask(name, case))
  return out


def same(a, b, tol, what):
  require([n for n, _ in a] == [n for n, _ in b], f"{what}: other results in another process",
          got=[n for n, _ in a], want=[n for n, _ in b])
  for (n, x), (_, y) in zip(a, b):
    if isinstance(x, str):
      require(x == y, f"{what}: {n} differ between processes", got=x, want=y)
      continue
    require(D06.agree(x, y, tol), f"{what}: {n} differs between processes with equal random "
            "state", got=x.ravel()[:6].tolist(), want=y.ravel()[:6].tolist())


def fn_objects(case, rec):
  results = everywhere("objects", case)
  first, kinds = results[0]
  for other, _ in results[1:]:
    for step, (a, b) in enumerate(zip(first, other)):
      warm = any(k and ("Logistic" in k or "example" in k) for k in kinds)
      same(a, b, 2e-2 if warm else 1e-8, f"operation {step} on {kinds}")
  rec.nontrivial(len(first) >= 3)
  rec.label(*[k for k in kinds if k])


def fn_experiments(case, rec):
  results = everywhere("experiments", case)
  for other in results[1:]:
    same(results[0], other, 1e-3, f"experiment 5.{case['family']}")
  rec.nontrivial(any(n.endswith("samples") and len(v) > 1 for n, v in results[0]))
  rec.label(f"5.{case['family']}", f"M={case['m']}", "given data" if case["given"] else "drawn")


def fn_large(case, rec):
  results = everywhere("large", case)
  for other in results[1:]:
    same(results[0], other, 1e-3, f"{case['n']} units")
  rec.nontrivial()
  rec.label(f"n={case['n']}")


def st_large():
  return st.fixed_dictionaries(dict(
      n=st.sampled_from([1100, 2300, 6000, 15000, 33000]), k=st.integers(2, 5),
      p=st.sampled_from([.1, .5]), stable=st.booleans(), seed=st.integers(0, 2**31)))


def st_experiments():
  return st.integers(1, 3).flatmap(lambda m: st.fixed_dictionaries(dict(
      m=st.just(m), family=st.sampled_from([1, 1, 2]),
      z=st.lists(st.integers(1, 2), min_size=m + 1, max_size=m + 1),
      v=st.lists(st.integers(1, 2), min_size=m, max_size=m), z0=st.sampled_from([1, 3, .5]),
      units=st.sampled_from([60, 100, 200]), rounds=st.integers(1, 12), latex=st.booleans(),
      given=st.booleans(), order=st.permutations([0, 1, 2]).map(list),
      glob=st.integers(0, 2**31), seed=st.integers(0, 2**31))))


SUBS = [Sub("objects", D06.st_case(sorted(D06.CLASSES), 12), fn_objects, 400),
        Sub("experiments", st_experiments, fn_experiments, 120),
        Sub("large", st_large, fn_large, 24)]
