"""Runner: one seed, many short simulated runs, each in its own forked process that starts from the state right after
importing the library.  A run is a plan (plain JSON, drawn from the seed) and its execution; the execution draws nothing.
"""
import collections
import contextlib
import hashlib
import importlib
import io
import json
import mmap
import os
import random
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

from . import expr as E
from .canon import canon, Unstable

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
LIB = os.path.join(os.path.realpath(REPO), 'discretehelpers') + os.sep
PY = sys.executable

RUN_TIMEOUT = 60.0       # wall seconds for one run; typical runs take milliseconds
REF_TIMEOUT = 60.0


class HarnessError(Exception):
    pass


class Rng(random.Random):
    """all random choices of a run come from here; `hint` is the number of atoms the generated calls should aim at"""
    hint = 3
    names = None


def run_rng(seed, prop, i):
    rng = Rng('%s/%s/%s' % (seed, prop, i))
    rng.seed_no = seed
    return rng


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p.encode() if isinstance(p, str) else p)
        h.update(b'\0')
    return h.hexdigest()[:16]


THIRD_PARTY = ('numpy', 'sympy', 'sympy.discrete.transforms', 'bidict', 'networkx', 'factoradic', 'more_itertools')


def preload():
    """everything outside the library that it uses; nothing of this is under test"""
    for m in THIRD_PARTY:
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    from . import trace
    trace.patch_locks()


def load_library():
    preload()
    for m in ('binv', 'perm', 'sig_perm', 'walsh_perm', 'set_part', 'set_part_comp', 'boolf', 'boolf.examples'):
        importlib.import_module('discretehelpers.' + m)
    import discretehelpers
    where = os.path.realpath(list(discretehelpers.__path__)[0]) + os.sep
    if where != LIB:
        raise HarnessError('library imported from %s, expected %s' % (where, LIB))
    # modules which are imported only inside functions
    for d, dirs, files in os.walk(LIB):
        dirs[:] = sorted(x for x in dirs if x not in ('test', 'tests', 'scripts', 'examples', '__pycache__') and '-' not in x)
        name = 'discretehelpers' + ('.' + os.path.relpath(d, LIB).replace(os.sep, '.') if d + os.sep != LIB and d != LIB else '')
        for f in sorted(files):
            if f.endswith('.py') and not f.startswith(('_test', 'test')):
                m = name if f == '__init__.py' else name + '.' + f[:-3]
                try:
                    importlib.import_module(m)
                except Exception:
                    SKIPPED_MODULES.append(m)
    from . import trace
    trace.library_codes()


SKIPPED_MODULES = []


# ------------------------------------------------------------------------------------------------ forked execution

def isolated(fn, *args, timeout=RUN_TIMEOUT):
    """fn(*args) in a forked child; returns ('ok', value) | ('hang', None) | ('died', status)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = {'ok': fn(*args)}
            except BaseException:
                out = {'error': traceback.format_exc()[-4000:]}
            data = json.dumps(out).encode()
            view = memoryview(data)
            while view:
                n = os.write(w, view)
                view = view[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.monotonic() + timeout
    status = None
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return 'hang', None
            if select.select([r], [], [], left)[0]:
                b = os.read(r, 1 << 20)
                if not b:
                    break
                chunks.append(b)
        _, status = os.waitpid(pid, 0)
    finally:
        os.close(r)
    data = b''.join(chunks)
    if not data:
        return 'died', status
    out = json.loads(data)
    if 'error' in out:
        raise HarnessError('in simulated run:\n' + out['error'])
    return 'ok', out['ok']


# ------------------------------------------------------------------------------------------------ asking

def answer(e, slots):
    """evaluate a call and return (text, value); library exceptions are answers; printed text is part of the answer"""
    out = io.StringIO()
    val = None
    try:
        with contextlib.redirect_stdout(out):
            val = E.ev(e, slots)
            text = canon(val)
    except Unstable:
        raise
    except Exception as ex:
        val = ex
        text = 'raised ' + type(ex).__name__
    s = out.getvalue()
    if s:
        text += ' printed ' + repr(s)
    return text, val


def cut(text, n=1500):
    return text if len(text) <= n else text[:n - 60] + '...#' + digest(text)


# ------------------------------------------------------------------------------------------------ reference answers

def _ref_child(recipe):
    return cut(answer(recipe, [])[0])


class References:
    """answers given by a fresh object in a fresh process; remembered by the text of the recipe"""

    def __init__(self):
        self.memo = {}
        self.forks = 0

    def get(self, recipe):
        key = json.dumps(recipe)
        if key not in self.memo:
            self.forks += 1
            kind, val = isolated(_ref_child, recipe, timeout=REF_TIMEOUT)
            self.memo[key] = val if kind == 'ok' else 'no answer (%s)' % kind
        return self.memo[key]


# ------------------------------------------------------------------------------------------------ one run

def judge(mod, plan, refs, timeout=RUN_TIMEOUT):
    """execute a plan and decide; returns (violation message or None, result)"""
    if hasattr(mod, 'judge'):
        return mod.judge(plan, timeout)
    kind, res = isolated(mod.execute, plan, timeout=timeout)
    if kind == 'hang':
        # only a run that stays silent twice, the second time with double the time, counts as hanging
        kind, res = isolated(mod.execute, plan, timeout=2 * timeout)
        if kind == 'hang':
            return 'the run does not come to an end', {'steps': 0}
    if kind == 'died':
        return 'the process died (status %s)' % res, {'steps': 0}
    if res.get('viol'):
        return res['viol'], res
    for claim in res.get('claims', ()):
        recipe, got, what = claim
        want = refs.get(recipe)
        if got != want:
            return '%s: got %s, a fresh process says %s' % (what, cut(got, 400), cut(want, 400)), res
    return None, res


def merge_stats(total, res):
    for k, v in (res.get('faults') or {}).items():
        total['faults'][k] += v
    for k, v in (res.get('probes') or {}).items():
        total['probes'][k] += v
    for k, v in (res.get('counts') or {}).items():
        total['counts'][k] += v
    total['steps'] += res.get('steps', 0)
    for s in res.get('sigs') or ():
        total['sigs'].add(s)
    if res.get('trivial'):
        total['trivial'] += 1
    else:
        total['nontrivial_sigs'].add(res.get('sig') or '')
    total['claims'] += len(res.get('claims') or ())


def new_total():
    return {'faults': collections.Counter(), 'probes': collections.Counter(), 'counts': collections.Counter(), 'steps': 0,
            'sigs': set(), 'nontrivial_sigs': set(), 'trivial': 0, 'claims': 0, 'runs': 0, 'digests': {}, 'refs': 0}


def worker(mod, seed, tier, w, nw, n, stop, deadline, out_fd, keep_digests):
    total = new_total()
    refs = References()
    viol = None
    err = None
    timed_out = False
    try:
        for i in range(w, n, nw):
            cur = struct.unpack('q', stop[:8])[0]
            if cur >= 0 and i > cur:
                break
            if time.monotonic() > deadline:
                timed_out = True
                break
            plan = mod.make(run_rng(seed, mod.ID, i), i, tier)
            msg, res = judge(mod, plan, refs)
            total['runs'] += 1
            merge_stats(total, res)
            if keep_digests:
                total['digests'][i] = digest(json.dumps(plan, sort_keys=True), json.dumps(res, sort_keys=True), msg or '')
            if msg:
                viol = [i, msg, plan]
                cur = struct.unpack('q', stop[:8])[0]
                if cur < 0 or i < cur:
                    stop[:8] = struct.pack('q', i)
                break
    except Exception:
        err = traceback.format_exc()[-4000:]
    total['refs'] = refs.forks
    total['sigs'] = sorted(total['sigs'])
    total['nontrivial_sigs'] = sorted(total['nontrivial_sigs'])
    data = json.dumps({'total': total, 'viol': viol, 'err': err, 'timed_out': timed_out}).encode()
    os.write(out_fd, struct.pack('q', len(data)))
    view = memoryview(data)
    while view:
        k = os.write(out_fd, view)
        view = view[k:]


def explore(mod, seed, tier, nw, n, wall, keep_digests=False):
    """returns total, violation or None, timed_out"""
    stop = mmap.mmap(-1, 8)
    stop[:8] = struct.pack('q', -1)
    deadline = time.monotonic() + wall
    pids, fds = [], []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(nw):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                for f in fds:
                    os.close(f)
                worker(mod, seed, tier, w, nw, n, stop, deadline, wr, keep_digests)
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        pids.append(pid)
        fds.append(r)
    bufs = {f: [] for f in fds}
    openfds = set(fds)
    while openfds:
        for f in select.select(list(openfds), [], [])[0]:
            b = os.read(f, 1 << 20)
            if b:
                bufs[f].append(b)
            else:
                openfds.discard(f)
                os.close(f)
    for pid in pids:
        os.waitpid(pid, 0)
    total = new_total()
    viols, errs, timed_out = [], [], False
    for f in fds:
        data = b''.join(bufs[f])
        if len(data) < 8:
            errs.append('a worker died without a report')
            continue
        rep = json.loads(data[8:])
        t = rep['total']
        for k in ('faults', 'probes', 'counts'):
            total[k].update(t[k])
        for k in ('steps', 'trivial', 'claims', 'runs', 'refs'):
            total[k] += t[k]
        for k in ('sigs', 'nontrivial_sigs'):
            total[k].update(t[k])
        total['digests'].update({int(a): b for a, b in t['digests'].items()})
        if rep['viol']:
            viols.append(rep['viol'])
        if rep['err']:
            errs.append(rep['err'])
        timed_out |= rep['timed_out']
    viol = min(viols, key=lambda v: v[0]) if viols else None
    return total, viol, errs, timed_out


# ------------------------------------------------------------------------------------------------ minimisation

def minimise(mod, plan, msg, budget=60.0):
    refs = References()
    end = time.monotonic() + budget
    best, best_msg = plan, msg
    tried = 0
    changed = True
    while changed and time.monotonic() < end:
        changed = False
        for cand in mod.shrink(best):
            if time.monotonic() > end:
                break
            tried += 1
            try:
                m, _ = judge(mod, cand, refs, timeout=10.0)
            except Exception:
                continue
            if m:
                best, best_msg = cand, m
                changed = True
                break
    return best, best_msg, tried


def shrink_list(xs):
    """candidates with parts of the list left out, large parts first"""
    n = len(xs)
    k = n
    while k >= 1:
        k = k // 2 if k > 1 else 0
        if k == 0:
            break
        for i in range(0, n, k):
            c = xs[:i] + xs[i + k:]
            if c != xs:
                yield c


def shrink_steps(plan, key='steps'):
    for c in shrink_list(plan[key]):
        p = dict(plan)
        p[key] = c
        yield p


# ------------------------------------------------------------------------------------------------ command line

def describe(mod, plan):
    try:
        return mod.describe(plan)
    except Exception:
        return json.dumps(plan)[:2000]


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = '%s.%d.tmp' % (path, os.getpid())
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1)
        f.write('\n')
    os.replace(tmp, path)


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    mod = importlib.import_module('sim.props.' + rep['property'].lower())
    if hasattr(mod, 'before'):
        mod.before(rep['seed'], 'quick')
    msg, _ = judge(mod, rep['plan'], References())
    if msg:
        print('replayed: ' + msg)
        print('VIOLATION property=%s replay=%s' % (rep['property'], path))
        return 1
    print('the recorded run shows no violation')
    return 0


def ensure_environment(module='sim.run'):
    want = {'PYTHONHASHSEED': os.environ.get('SIM_HASHSEED', '0'), 'PYTHONDONTWRITEBYTECODE': '1',
            'PYTHONPYCACHEPREFIX': os.path.join(VERIF, 'evidence', 'no-bytecode-here'), 'OPENBLAS_NUM_THREADS': '1',
            'OMP_NUM_THREADS': '1', 'SIM_ENV': '1'}
    if any(os.environ.get(k) != v for k, v in want.items()):
        env = dict(os.environ)
        env.update(want)
        os.execve(PY, [PY, '-m', module] + sys.argv[1:], env)


def check(prop, seed, tier, nw=None, runs=None):
    t0 = time.monotonic()
    mod = importlib.import_module('sim.props.' + prop.lower())
    print('seed=%d property=%s tier=%s' % (seed, prop, tier), flush=True)
    nw = nw or min(8, os.cpu_count() or 1)
    n = runs or mod.RUNS[tier]
    wall = 600.0 if tier == 'quick' else 840.0
    ev_path = os.path.join(VERIF, 'evidence', prop + '.json')
    extra = None
    if hasattr(mod, 'before'):
        mod.before(seed, tier)
    total, viol, errs, timed_out = explore(mod, seed, tier, nw, n, wall)
    if errs and not viol:
        print('ERROR in the harness:\n' + errs[0], file=sys.stderr)
        return 2
    wall_s = time.monotonic() - t0
    samples = []
    for i in range(min(2, n)):
        samples.append({'run': i, 'text': describe(mod, mod.make(run_rng(seed, prop, i), i, tier))[:1500]})
    cov = {
        'evaluations': total['runs'],
        'distinct_nontrivial': len(total['nontrivial_sigs']),
        'rule': mod.RULE,
        'samples': samples,
        'simulated_runs_per_hour': int(total['runs'] / max(wall_s, 1e-9) * 3600),
        'simulated_time': {'unit': mod.TIME_UNIT, 'covered': total['steps']},
        'faults_injected': dict(sorted(total['faults'].items())),
        'distinct_states_or_interleavings': {'measure': mod.MEASURE, 'count': len(total['sigs'])},
        'rare_conditions_hit': dict(sorted(total['probes'].items())),
        'counts': dict(sorted(total['counts'].items())),
        'components': mod.COMPONENTS,
        'seed_of_run': '%d/%s/<run index>, run indices 0..%d' % (seed, prop, n - 1),
    }
    if total['claims']:
        cov['answers_compared_with_fresh_process'] = total['claims']
        cov['fresh_processes_used_as_reference'] = total['refs']
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': cov,
          'assumptions': mod.ASSUMPTIONS, 'wall_s': round(wall_s, 3), 'violations': 1 if viol else 0}
    if viol:
        i, msg, plan = viol
        small, small_msg, tried = minimise(mod, plan, msg)
        path = os.path.join(VERIF, 'evidence', 'replay', '%s-%d-%d.json' % (prop, seed, i))
        rep = {'property': prop, 'seed': seed, 'run': i, 'message': small_msg, 'first_message': msg, 'plan': small,
               'text': describe(mod, small), 'shrink_attempts': tried}
        write_json(path, rep)
        p = subprocess.run([PY, '-m', 'sim.run', '--replay', path], cwd=VERIF, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        rep['reproduced_in_fresh_process'] = p.returncode == 1
        if p.returncode != 1:
            rep['plan'], rep['message'], rep['text'] = plan, msg, describe(mod, plan)
        write_json(path, rep)
        ev['coverage']['replay'] = path
        ev['wall_s'] = round(time.monotonic() - t0, 3)
        write_json(ev_path, ev)
        print('run %d: %s' % (i, rep['message']))
        print(rep['text'])
        print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
        return 1
    write_json(ev_path, ev)
    if timed_out or total['runs'] < n:
        print('ERROR: only %d of %d runs done before the time limit' % (total['runs'], n), file=sys.stderr)
        return 2
    print('held: %d runs, %d distinct, %d steps, faults %s, %.1f s' % (
        total['runs'], len(total['nontrivial_sigs']), total['steps'], dict(total['faults']), wall_s))
    return 0
