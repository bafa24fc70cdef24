"""Random causal graphs with recording mechanisms, and an independent evaluator."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import tail


class Fault(Exception):
  pass


class Stop(BaseException):
  """An interruption such as KeyboardInterrupt, which is no Exception."""


def strategy(max_vars=6):
  """A graph: variables in topological order with ordered parents and dimensions."""

  def build(k):
    node = lambda i: st.fixed_dictionaries(dict(
        parents=st.one_of(
            st.lists(st.integers(0, i - 1), unique=True, max_size=i),
            st.lists(st.integers(0, i - 1), max_size=3),  # a parent may be listed twice
            st.permutations(list(range(i))).map(list))
        if i else st.just([]),
        dim=st.sampled_from([0, 0, 0, 0, 1, 2, 3, 7]),
        dt=st.sampled_from(["", "", "", "", "i8", "i4", "u1", "b"]),
        mut=st.sampled_from(["", "", "", "pop", "clear", "append", "reverse"]),
        c=st.integers(-3, 3), w=st.integers(-3, 3), q=st.integers(-1, 1)))
    return st.tuples(*[node(i) for i in range(k)]).map(list)

  return tail(st.integers(2, max_vars), 9, 12).flatmap(build)


def names(k, style=0):
  if style == 1:
    return [chr(ord("Z") - i) for i in range(k)]
  if style == 2:
    return [f"variable_{'x' * (k - i)}{i}" for i in range(k)]
  return [f"v{i}" for i in range(k)]


def cast(v, dt):
  """The values as another type, without overflow."""
  if dt == "b":
    return np.mod(np.floor(v), 2) > 0
  if dt == "u1":
    return np.mod(np.floor(v), 200).astype(dt)
  return np.floor(np.mod(v + 10**6, 2 * 10**6) - 10**6).astype(dt) if dt else v


def value(node, i, n, parents, bump=0):
  """The mechanism of variable i: a non-commutative function of its parents."""
  base = node["c"] + .5 * np.arange(n) % 7 + i + bump
  tot = np.zeros(n)
  for j, p in enumerate(parents):
    p = np.asarray(p, dtype=float)
    p1 = p if p.ndim == 1 else p.dot(np.arange(1, p.shape[1] + 1))
    tot = tot + (node["w"] + 1.5 * j + 1) * p1
    tot = tot + node["q"] * .1 * np.minimum(p1 * p1, 10)
  v = base + tot
  d = node["dim"]
  if d:
    v = v[:, None] * (1 + np.arange(d)) - np.arange(d)
  return cast(v, node.get("dt"))


class Recorder:
  """Builds the mechanisms; records (variable, n, parents) of every call."""

  def __init__(self, nodes, mutate=True):
    self.nodes = nodes
    self.mutate = mutate
    self.calls = []
    self.fail_at = None
    self.fault = Fault
    self.bump = 0

  def cpd(self, i):
    node = self.nodes[i]

    def f(n, parents):
      if self.fail_at is not None and len(self.calls) == self.fail_at:
        self.calls.append((i, n, None))
        raise self.fault("injected")
      got = [np.array(p, copy=True) for p in parents]
      self.calls.append((i, n, got))
      out = value(node, i, n, got, self.bump)
      if self.mutate and isinstance(parents, list):
        m = node["mut"]
        if m == "pop" and parents:
          parents.pop()
        elif m == "clear":
          parents.clear()
        elif m == "append":
          parents.append(np.zeros(n))
        elif m == "reverse":
          parents.reverse()
      return out

    return f


def evaluate(nodes, n, do=None, bump=0):
  """All variables, by an independent evaluation of the graph."""
  vals = []
  for i, node in enumerate(nodes):
    if do is not None and i == do[0]:
      vals.append(np.full(n, float(do[1])))
    else:
      vals.append(value(node, i, n, [vals[p] for p in node["parents"]], bump))
  return vals
