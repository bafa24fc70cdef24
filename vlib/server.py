"""Processes started from scratch that run functions of a check on request.

A request is a (function name, arguments) pair; it is answered by a fork of the server, so that
no request leaves a trace. Servers end when their standard input is closed.
"""
import importlib
import os
import pickle
import struct
import subprocess
import sys

from vlib import core

HERE = core.HERE


class Server:
  """A Python process with its own hash seed, environment and past."""

  def __init__(self, module, env, before=""):
    code = (f"import sys; sys.path[:0] = [{HERE!r}]; sys.path += {sys.path[1:]!r}\n"
            f"from vlib import server; server.serve({module!r}, {before!r})")
    self.p = subprocess.Popen([sys.executable, "-c", code], stdin=subprocess.PIPE,
                              stdout=subprocess.PIPE, env=dict(os.environ, **env))

  def ask(self, name, *args):
    try:
      send(self.p.stdin, (name, args))
    except BrokenPipeError:
      pass
    try:
      kind, out = receive(self.p.stdout)
    except EOFError:
      raise core.HarnessError(f"a server has ended ({self.p.poll()})") from None
    if kind == "violation":
      raise core.Violation(out)
    if kind == "harness":
      raise core.HarnessError(out)
    return out


SERVERS = {}


def get(key, module, env, before=""):
  """The server of this process for key."""
  key = (os.getpid(), key)
  if key not in SERVERS:
    SERVERS[key] = Server(module, env, before)
  return SERVERS[key]


def send(f, v):
  raw = pickle.dumps(v)
  f.write(struct.pack("<q", len(raw)) + raw)
  f.flush()


def receive(f):
  n = f.read(8)
  if len(n) < 8:
    raise EOFError
  return pickle.loads(f.read(struct.unpack("<q", n)[0]))


def serve(module, before):
  """Answers requests until there are no more."""
  source, sink = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
  null = os.open(os.devnull, os.O_RDWR)
  os.dup2(null, 0)
  os.dup2(null, 1)
  from vlib import repo
  repo.install()
  mod = importlib.import_module("checks." + module)
  core._quiet()  # pylint: disable=protected-access
  if before:
    getattr(mod, before)()
  while True:
    try:
      name, args = receive(source)
    except EOFError:
      os._exit(0)
    try:
      out = ("ok", core.isolated(lambda: getattr(mod, name)(*args)))
    except core.Violation as e:
      out = ("violation", str(e))
    except core.HarnessError as e:
      out = ("harness", str(e))
    send(sink, out)
