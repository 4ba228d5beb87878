"""Runs plans sent on standard input and sends back the results; an interpreter of its own, with its own hash seed.

python -m sim.server C11: one JSON plan per line in, one JSON line [kind, result] out.  Ends when standard input ends.
"""
import importlib
import json
import os
import subprocess
import sys

from . import core


class Server:
    """the near side: an interpreter started with a given environment"""

    def __init__(self, prop, env):
        e = dict(os.environ)
        e.update(env)
        self.p = subprocess.Popen([core.PY, '-m', 'sim.server', prop], cwd=core.VERIF, env=e, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE)

    def send(self, plan, timeout):
        self.p.stdin.write(json.dumps([plan, timeout]).encode() + b'\n')
        self.p.stdin.flush()

    def receive(self):
        line = self.p.stdout.readline()
        if not line:
            raise core.HarnessError('the other interpreter is gone')
        return json.loads(line)


def main(prop):
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    sys.dont_write_bytecode = True
    mod = importlib.import_module('sim.props.' + prop.lower())
    if getattr(mod, 'LIBRARY', True):
        core.load_library()
    else:
        core.preload()
    for line in sys.stdin.buffer:
        plan, timeout = json.loads(line)
        try:
            res = core.isolated(mod.execute, plan, timeout=timeout)
        except core.HarnessError as ex:
            res = ['error', str(ex)]
        out.write(json.dumps(res).encode() + b'\n')
        out.flush()


if __name__ == '__main__':
    main(sys.argv[1])
