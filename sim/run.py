"""python -m sim.run C01 | --replay FILE | --determinism C01 [runs]"""
import os
import sys

from . import core


def main(argv):
    core.ensure_environment()
    sys.dont_write_bytecode = True
    name = argv[0]
    if name == '--replay':
        with open(argv[1]) as f:
            name = core.json.load(f)['property']
    elif name == '--digests':
        name = argv[1]
    mod = core.importlib.import_module('sim.props.' + name.lower())
    try:
        core.load_library() if getattr(mod, 'LIBRARY', True) else core.preload()
    except Exception:
        import traceback
        traceback.print_exc()
        return 2
    import gc
    gc.collect()
    gc.freeze()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if argv[0] == '--replay':
        return core.replay(argv[1])
    if argv[0] == '--digests':
        if hasattr(mod, 'before'):
            mod.before(seed, tier)
        n = int(argv[2])
        nw = int(argv[3])
        total, viol, errs, _ = core.explore(mod, seed, tier, nw, n, 3000, keep_digests=True)
        for i in sorted(total['digests']):
            print(i, total['digests'][i])
        for e in errs:
            print(e, file=sys.stderr)
        print('viol', viol and viol[:2])
        return 0
    runs = int(os.environ['SIM_RUNS']) if 'SIM_RUNS' in os.environ else None
    nw = int(os.environ['SIM_WORKERS']) if 'SIM_WORKERS' in os.environ else None
    return core.check(argv[0], seed, tier, nw, runs)


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
