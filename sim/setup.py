"""Setup: nothing to build, only make sure that the interpreter, the third-party packages and the library are there."""
import importlib
import sys

from . import core

core.ensure_environment('sim.setup')
for m in ('numpy', 'sympy', 'bidict', 'networkx'):
    importlib.import_module(m)
core.load_library()
print('python %s, library at %s' % (sys.version.split()[0], core.LIB))
