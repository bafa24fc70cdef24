"""Imports causal_effect_bandits from the source tree under test.

Modules are always compiled from the current source text: stale byte code and
installed copies are ignored.
"""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
PKG = "causal_effect_bandits"


class _Loader(importlib.machinery.SourceFileLoader):

  def get_code(self, fullname):
    path = self.get_filename(fullname)
    return self.source_to_code(self.get_data(path), path)


class _Finder(importlib.abc.MetaPathFinder):

  def find_spec(self, fullname, path=None, target=None):
    if fullname != PKG and not fullname.startswith(PKG + "."):
      return None
    base = os.path.join(REPO, *fullname.split("."))
    if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
      f = os.path.join(base, "__init__.py")
      return importlib.util.spec_from_file_location(
          fullname, f, loader=_Loader(fullname, f),
          submodule_search_locations=[base])
    f = base + ".py"
    if os.path.exists(f):
      return importlib.util.spec_from_file_location(
          fullname, f, loader=_Loader(fullname, f))
    raise ModuleNotFoundError(f"{fullname} not found under {REPO}")


def install():
  sys.dont_write_bytecode = True
  sys.meta_path.insert(0, _Finder())


def load(*names):
  mods = []
  for n in names:
    m = importlib.import_module(PKG + "." + n)
    assert os.path.abspath(m.__file__).startswith(REPO + os.sep), m.__file__
    mods.append(m)
  return mods[0] if len(mods) == 1 else mods
