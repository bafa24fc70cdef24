"""Separate objects do not influence each other."""
import numpy as np
from hypothesis import strategies as st

from vlib import armkit, banditkit, dag, nuis, repo
from vlib.core import Sub, isolated, require, tail

data, parameters, arms, bandits, scm, example, paper, nonlinear = repo.load(
    "data", "parameters", "arms", "bandits", "scm", "example_scm", "paper_utils",
    "nonlinear_utils")
ID = "D06"
RULE = ("every case builds 2-4 objects, some with equal settings, and interleaves histories of "
        "operations on them; the random state is set before every operation from the object "
        "and the number of the operation. Every result must equal that of the object's own "
        "history on a new object alone in a new process, and results handed out earlier must still be what "
        "they were at the end. nuisance: estimators and tables; arm: sample-splitting and "
        "bootstrap arms; member: the arms of one paper example; model: models, generators and random functions; bandit: runs and "
        "resets; mixed: all of these. Objects share the data sets, transformers, arrays and "
        "dictionaries they are made from. non-trivial = operations of two objects alternate "
        "at least twice")


# -------------------------------------------------------------------- sharing
class World:
  """What the objects are made from; each alone run has a world of its own."""

  def __init__(self, case):
    self.case = case
    self.made = {}

  def get(self, key, build):
    if key not in self.made:
      self.made[key] = build()
    return self.made[key]

  def data(self, i, discrete):
    spec = self.case["data"][i % len(self.case["data"])]
    return self.get(("data", i % len(self.case["data"]), discrete), lambda: nuis.make_data(
        dict(spec, kind="int" if discrete else spec["kind"]), self.case["d"]))

  def transformer(self, i):
    d = self.case["d"]
    if i == 0 or d == 1:
      return self.get("identity", data.get_identity_fn), d
    if i == 1:
      return self.get("remove", lambda: data.get_remove_coordinates_fn(0)), d - 1
    cols = [d - 1, 0]
    return self.get("mask", lambda: data.get_coordinate_mask_fn(cols)), 2


def flat(name, d):
  return [(f"{name} covariates", d.cov), (f"{name} exposures", d.exp),
          (f"{name} responses", d.rsp)]


def probe(d):
  """The data sets that estimators are asked about have a unit."""
  return d if len(d) else data.ExpData(np.zeros((1, d.cov.shape[1])), np.zeros(1), np.zeros(1))


# ------------------------------------------------------------------- nuisance
class Estimator:
  OPS = ["fit", "fit", "fit", "score", "score", "nuisances", "width", "reset"]

  def __init__(self, w, s):
    self.w = w
    self.front = s["e"]["kind"].startswith("Front")
    self.warm = s["e"]["kind"] in nuis.WARM
    self.eta = nuis.make_estimator(dict(s["e"], d=w.case["d"]))
    self.kind = s["e"]["kind"]

  def run(self, op, a, b):
    d = self.w.data(a, self.front)
    ready = self.eta.has_enough_samples()
    if op == "fit":
      self.eta.fit(d)
      return [("ready", self.eta.has_enough_samples())]
    if op == "reset":
      self.eta.reset()
      return [("ready", self.eta.has_enough_samples())]
    if not ready:
      return [("ready", False)]
    if op == "score":
      return [("scores", self.eta.calculate_score(probe(d)))]
    if op == "nuisances":
      return [("nuisances", self.eta.transform(probe(d)))]
    if self.kind.startswith("Linear"):
      return []
    w = self.eta.calculate_cs_width(.1 + .1 * (b % 3), sub_g=1, rho=.1)
    # Of an ill-conditioned design, only whether it has a width is repeatable.
    return [("width", w if w < 1e4 else np.inf)]


class Table:
  OPS = ["fit", "predict", "predict", "support"]

  def __init__(self, w, s):
    self.w = w
    self.cpd = data.TabularCPD(*([] if s["ratio"] is None else [s["ratio"]]))
    self.fitted = False
    self.kind = "TabularCPD"

  def run(self, op, a, b):
    d = self.w.data(a, True)
    if op == "fit" and len(d):
      self.cpd.fit(d.exp, d.cov)
      self.fitted = True
    if not self.fitted:
      return []
    if op == "predict":
      return [("probabilities", self.cpd.predict(d.exp, d.cov))] if len(d) else []
    zs = np.array([z for z in self.cpd.z_support()], dtype=float)
    return [("support", zs), ("size", self.cpd.support_size()),
            ("x support", sorted(float(x) for x in self.cpd.x_support())),
            ("marginals", sorted(self.cpd.x_marginal.values()))]


class Transformer:
  """A selection of covariates (its own function, not the shared one)."""
  OPS = ["apply", "apply"]

  def __init__(self, w, s):
    self.w = w
    self.own = World(w.case)
    self.f, _ = self.own.transformer(s["tr"])
    self.kind = "transformer"

  def run(self, op, a, b):
    d = self.f(self.w.data(a, b % 2 == 0))
    out = flat("selected", d)
    if len(d) > 1:
      for i, f in enumerate(d.k_fold(2)):
        out += flat(f"fold {i}", f)
    return out


# ----------------------------------------------------------------------- arms
ARM_KINDS = ["AIPW", "AIPW", "AIPWLinearLogistic", "FrontDoorLinearFiniteZ",
             "LinearParameterBinaryTreatment", "LinearRegressionParameter"]


class Arm:
  OPS = ["update"] * 5 + ["read", "reset"]

  def __init__(self, w, s):
    self.w = w
    e = dict(s["e"], units=s["e"]["units"] or 2)
    tr, d = w.transformer(s["tr"])
    self.front = e["kind"].startswith("Front")
    self.warm = e["kind"] in nuis.WARM
    eta = nuis.make_estimator(dict(e, d=d))
    self.kind = f"{s['arm']} arm with {e['kind']}"
    name = f"arm{s['tr']}"  # names may be equal
    if s["arm"] == "bootstrap":
      self.arm = arms.BootstrapArm(name, eta, tr, n_bootstraps=s["boots"],
                                   stable_splits=s["stable"])
    else:
      self.arm = arms.SampleSplittingArm(
          name, eta, tr, stable_splits=s["stable"],
          **dict(armkit.BASE, ci_algorithm=armkit.ALGS[s["alg"]]))
    # Only sample splitting with AIPW scores waits until both folds are large enough.
    self.patient = s["arm"] == "split" and e["kind"].startswith("AIPW")
    self.started = False

  def run(self, op, a, b):
    out = []
    if op == "reset":
      self.arm.reset()
      self.started = False
    if op == "update":
      d = self.w.data(a, self.front)
      if not (self.patient or self.started):
        d = self.w.get(("first", a, self.front), lambda: nuis.make_data(
            dict(self.w.case["data"][a % len(self.w.case["data"])], n0=14, n1=13,
                 kind="int" if self.front else "normal"), self.w.case["d"]))
      self.started = True
      out += [("returned interval", self.arm.update(d, [.05, .1, .3][b % 3]))]
    a = self.arm
    return out + [("interval", a.ci), ("effect", a.ate), ("variance", a.var_est),
                  ("units", a.get_num_units()), ("updates", a.num_pulled), ("cost", a.cost)]


# --------------------------------------------------------------------- models
class Model:
  """Structural causal models and linear generators."""
  OPS = ["generate", "generate", "effect"]

  def __init__(self, w, s):
    kind = s["model"]
    self.kind = kind
    d = w.case["d"]
    seed = w.case["seed"] % 1000 + s["tr"]
    if kind == "graph":
      self.model = self.graph(w, s)
    elif kind == "back door":
      self.model, self.info = example.back_door_scm()
    elif kind == "front door":
      self.model, self.info = example.frontdoor_scm()
    elif kind == "linear":
      draw = lambda k: np.random.RandomState([w.case["seed"] % 2**32, k]).normal(size=d)
      beta = w.get("beta", lambda: draw(3))
      gamma = w.get("gamma", lambda: draw(4)) if s["stable"] else None
      kw = {} if gamma is None else dict(gamma=gamma)
      self.model = data.LinearDataGenerator("g", d, beta, 1.5 + s["tr"], **kw)
    else:
      build = getattr(paper, f"get_section_{kind}_example")
      dims = w.get("dims", lambda: ([1, 2, 1], [0, 1, 2]))
      self.model, self.arms, *_ = build(
          *dims, seed=seed, z_cost=1, v_cost=2, z0_cost=3, num_back_door_paths=2,
          sample_limit=100, units_per_round=10)

  def graph(self, w, s):
    nodes = w.case["graph"]
    ns = dag.names(len(nodes))

    def mech(i, bump):
      return lambda n, parents: (dag.value(nodes[i], i, n, parents, bump) +
                                 np.random.normal(size=(n,) + ((nodes[i]["dim"],) if nodes[i]["dim"] else ())))

    def treat(n, parents):
      return np.random.binomial(1, .5, size=n)

    parents = w.get("parents", lambda: {v: [ns[j] for j in q["parents"]]
                                        for v, q in zip(ns, nodes)})
    names = w.get("names", lambda: list(ns))
    roles = w.get("roles", lambda: [n for n in ns[:-2]] or [ns[0]])
    # Equal settings share the dictionary of mechanisms.
    cpds = w.get(("cpds", s["tr"]), lambda: {v: mech(i, s["tr"]) for i, v in enumerate(ns)})
    cpds[ns[-2]] = w.get("treat", lambda: treat)
    return scm.SCM("model", names, parents, cpds, roles, ns[-2], ns[-1])

  def run(self, op, a, b):
    n = [1, 2, 5, 17, 40][a % 5]
    if op == "generate" or self.kind == "linear":
      return flat("generated", self.model.generate(n))
    return [("effect", self.model.compute_treatment_effect(n))]


class Member:
  """One of the arms of a paper example; every object is another arm of it."""
  OPS = ["update"] * 5 + ["read", "reset"]

  def __init__(self, w, s):
    family = 1 + w.case["seed"] // 5 % 2
    self.kind = f"arm of a 5.{family} example"
    state = np.random.get_state()
    self.model, members, self.sets = w.get("example", lambda: self.example(w, family))
    np.random.set_state(state)
    self.warm = True  # logistic regressions
    step = 1 + w.case["seed"] // 25 % 2
    self.arm = members[(w.case["seed"] + step * w.index) % len(members)]

  def example(self, w, family):
    np.random.seed(w.case["seed"] % 2**32)
    build = getattr(paper, f"get_section_5_{family}_example")
    model, members, *_ = build(
        *w.case["dims"], seed=w.case["seed"] % 1000, z_cost=1, v_cost=2, z0_cost=3,
        num_back_door_paths=2, sample_limit=100, units_per_round=10)
    sets = []
    for n in (80, 6, 120, 8, 160):
      d = model.generate(n)
      t = np.random.permutation(np.arange(n) % 2).astype(np.asarray(d.exp).dtype)
      sets.append(data.ExpData(d.cov, t, d.rsp))
    return model, members, sets

  def run(self, op, a, b):
    out = []
    if op == "reset":
      self.arm.reset()
    if op == "update":
      out += [("returned interval", self.arm.update(self.sets[a % 5], [.05, .1, .3][b % 3]))]
    a = self.arm
    return out + [("interval", a.ci), ("effect", a.ate), ("variance", a.var_est),
                  ("units", a.get_num_units()), ("updates", a.num_pulled), ("cost", a.cost)]


class Function:
  OPS = ["call"]

  def __init__(self, w, s):
    self.w = w
    self.dim = min(w.case["d"], 2)
    self.out = 1 + s["tr"]
    self.kind = "random function"
    kw = {} if s["ratio"] is None else dict(seed=s["ratio"])
    self.f = nonlinear.generate_random_nd_function(self.dim, self.out, n_points=4, **kw)

  def run(self, op, a, b):
    x = self.w.get(("x", a, self.dim), lambda: np.random.RandomState(
        [a, self.w.case["seed"] % 2**32]).uniform(-1, 1, size=(1 + a % 7, self.dim)))
    return [("values", self.f(x))]


# -------------------------------------------------------------------- bandits
class Bandit:
  OPS = ["run", "run", "reset"]

  def __init__(self, w, s):
    self.w = w
    self.kind = s["algo"]
    made = []
    for i in range(2 + s["tr"] % 2):
      tr, d = w.transformer(i)
      eta = parameters.AIPW(d, nuis.LearnResponse(1.0 + i), nuis.LearnPropensity(2.0),
                            min_units=2)
      made.append(arms.SampleSplittingArm(
          f"arm{i}", eta, tr, stable_splits=s["stable"],
          **dict(armkit.BASE, cost=1 + i % 2, ci_algorithm=armkit.ALGS[s["alg"]])))
    self.arms = made
    rs = np.random.RandomState([w.case["seed"] % 2**32, 3])
    gen = w.get("generator", lambda: data.LinearDataGenerator(
        "g", w.case["d"], rs.normal(size=w.case["d"]), 1.0))
    units = 20
    self.bandit = banditkit.ALGOS[s["algo"]](
        made, gen, units_per_round=units,
        sample_limit=units * len(made) * (1 + s["boots"]))

  def run(self, op, a, b):
    if op == "reset":
      self.bandit.reset()
      res = []
    else:
      self.bandit.reset()
      r = self.bandit.run()
      res = [("cumulative samples", r.cum_samples),
             ("returned arms", [self.arms.index(x) for x in r.best_arm])]
      for name in ("lcb_by_arm", "ucb_by_arm", "var_est_by_arm", "samples_by_arm"):
        require(len(getattr(r, name)) == len(self.arms), f"{name} has other arms")
        res += [(f"{name} {i}", getattr(r, name)[x]) for i, x in enumerate(self.arms)]
    for i, x in enumerate(self.arms):
      res += [(f"interval {i}", x.ci), (f"variance {i}", x.var_est),
              (f"units {i}", x.get_num_units())]
    return res


CLASSES = dict(estimator=Estimator, table=Table, transformer=Transformer, arm=Arm, model=Model,
               function=Function, bandit=Bandit, member=Member)


# ---------------------------------------------------------------- comparisons
def seed(case, i, k):
  np.random.seed([case["seed"] % 2**32, i, k])


def copy(v):
  return np.array(v, dtype=float, copy=True)


def agree(a, b, tol):
  if a.shape != b.shape:
    return False
  if a.size == 0:
    return True
  fin = np.abs(b[np.isfinite(b)])
  scale = fin.max() if fin.size else 0
  return np.allclose(a, b, rtol=tol, atol=tol * (scale + 1e-9), equal_nan=True)


def tolerance(obj):
  return 2e-2 if getattr(obj, "warm", False) else 1e-8


def twins(specs):
  """Number of the object whose settings and random states object i has."""
  return [s["twin"] % (i + 1) if s["twin"] < i else i for i, s in enumerate(specs)]


def new(case, w, i):
  t = twins(case["objects"])[i]
  seed(case, t, 0)
  w.index = i
  return CLASSES[case["objects"][t]["type"]](w, case["objects"][t])


def plan(case):
  """(object, operation, arguments) of every step."""
  k = len(case["objects"])
  out = []
  for at, (who, what, a, b) in enumerate(case["ops"]):
    if case["lockstep"]:  # all objects do the same in turn, with other data at first
      out += [(i, what, a + (i if at == 0 else 0), b) for i in range(k)]
    else:
      out.append(((who + at) % k, what, a, b))
  return out


def step(case, obj, i, k, what, a, b):
  """The k-th operation of object i."""
  op = obj.OPS[what % len(obj.OPS)]
  seed(case, twins(case["objects"])[i], 1 + k)
  return obj.run(op, a, b)


def together(case):
  """The results of all steps, and the kinds of the objects."""
  world = World(case)
  objs = [None if case["late"] else new(case, world, i) for i in range(len(case["objects"]))]
  done = [0] * len(objs)
  out, kept = [], []
  for i, what, a, b in plan(case):
    if objs[i] is None:
      objs[i] = new(case, world, i)
    got = step(case, objs[i], i, done[i], what, a, b)
    done[i] += 1
    out.append([(n, copy(v)) for n, v in got])
    kept += [(i, n, v, copy(v)) for n, v in got]
  for i, n, v, then in kept:
    require(agree(copy(v), then, 1e-12), f"{n} of object {i} ({objs[i].kind}) changed after it "
            "was handed out", now=copy(v).ravel()[:6].tolist(), then=then.ravel()[:6].tolist(),
            objects=[o.kind for o in objs if o is not None])
  return out, [o and o.kind for o in objs]


def alone(case, i):
  """The results of the steps of object i without the other objects."""
  obj = new(case, World(case), i)
  mine = [p[1:] for p in plan(case) if p[0] == i]
  return [[(n, copy(v)) for n, v in step(case, obj, i, k, *p)] for k, p in enumerate(mine)], (
      tolerance(obj))


def fn(case, rec):
  steps = plan(case)
  # Every run is the first thing that happens in its process.
  got, kinds = isolated(lambda: together(case))
  order = [p[0] for p in steps]
  for i in sorted(set(order)):
    want, tol = isolated(lambda: alone(case, i))
    mine = [g for o, g in zip(order, got) if o == i]
    for j, (g, w) in enumerate(zip(mine, want)):
      require([n for n, _ in g] == [n for n, _ in w],
              f"operation {j} of object {i} ({kinds[i]}): other results",
              got=[n for n, _ in g], want=[n for n, _ in w])
      for (n, x), (_, y) in zip(g, w):
        require(agree(x, y, tol), f"{n} of object {i} ({kinds[i]}) depends on the other objects",
                operation=j, got=x.ravel()[:6].tolist(), alone=y.ravel()[:6].tolist(),
                objects=kinds, order=order)
  changes = sum(x != y for x, y in zip(order, order[1:]))
  rec.nontrivial(changes >= 3)
  rec.label(*[q for q in kinds if q], "late" if case["late"] else "first",
            "twins" if len(set(twins(case["objects"]))) < len(kinds) else "different",
            "lockstep" if case["lockstep"] else "free")


# ----------------------------------------------------------------- strategies
def st_case(types, ops=10, kinds=nuis.KINDS):
  one = lambda t: st.fixed_dictionaries(dict(
      type=st.just(t), twin=st.integers(0, 5), tr=st.integers(0, 2),
      e=nuis.st_estimator(ARM_KINDS if t == "arm" else kinds),
      ratio=st.sampled_from([None, 2, 50]), arm=st.sampled_from(["split", "split", "bootstrap"]),
      alg=st.sampled_from(["CHI2", "CLT"]), stable=st.booleans(), boots=st.sampled_from([2, 4]),
      model=st.sampled_from(["graph", "graph", "back door", "front door", "linear", "5_1", "5_2"]),
      algo=st.sampled_from(sorted(banditkit.ALGOS))))
  return lambda: st.fixed_dictionaries(dict(
      objects=st.lists(st.sampled_from(types).flatmap(one), min_size=2, max_size=4),
      ops=st.lists(st.tuples(st.integers(0, 3), st.integers(0, 11), st.integers(0, 5),
                             st.integers(0, 2)), min_size=4, max_size=ops),
      data=st.lists(nuis.st_data(max_n=30), min_size=2, max_size=4),
      graph=dag.strategy(4).map(lambda g: [dict(n, dim=0 if i >= len(g) - 2 else n["dim"])
                                           for i, n in enumerate(g)]),
      d=tail(st.integers(1, 3), 5), late=st.booleans(), dims=st.sampled_from(
          [[[1, 1, 1], [0, 1, 1]], [[1, 2, 1], [0, 1, 2]], [[2, 1, 1], [0, 1, 2]]]),
      lockstep=st.booleans(), seed=st.integers(0, 2**31)))


SUBS = [Sub("nuisance", st_case(["estimator", "estimator", "table"], 14), fn, 800),
        Sub("arm", st_case(["arm"], 12), fn, 500),
        Sub("model", st_case(["model", "model", "function", "transformer"], 10), fn, 400),
        Sub("bandit", st_case(["bandit"], 6), fn, 200),
        Sub("member", st_case(["member"], 10), fn, 150),
        Sub("mixed", st_case(sorted(CLASSES), 12), fn, 400)]
