"""C13: every class can be imported first, in any order, also after a failed import"""
import importlib
import importlib.machinery
import json
import os
import sys
import _thread

from .. import expr as E
from .. import trace as T
from ..core import LIB, answer, cut, digest, isolated, shrink_list

ID = 'C13'
LIBRARY = False         # the runs start before the library is imported
LEVEL = 'fault_enumeration'
TECHNIQUE = 'seeded import orders with exceptions raised at chosen lines of module code, retries, and interleaved importing threads'
NOTE = ('Each run starts in a process that has not imported the library. Import orders, interrupted lines and interleavings are '
        'sampled; the answers of each class are compared with those it gives when it is imported alone.')
RUNS = {'quick': 700, 'thorough': 12000}
RULE = ('a run is a series of imports of 2 to 9 modules in random order in one process, some cut off by an exception at a chosen '
        'line and repeated, or made by two or three threads at once in a chosen interleaving, and first calls to the classes; '
        'non-trivial: at least two modules were imported and asked; distinct by the history')
TIME_UNIT = 'imports and calls in histories'
MEASURE = 'distinct (modules imported so far, module, place of the interruption or of the preemption)'
COMPONENTS = {'real': ['discretehelpers from the working tree, the import system of Python, real threads'],
              'stub': ['locks of the import system (so that waiting is visible), compiled code kept instead of bytecode files'],
              'model': ['each class imported alone in a fresh process']}
ASSUMPTIONS = ['third-party packages are already imported']

D = 'discretehelpers.'
MODULES = [D + m for m in ('binv', 'perm', 'sig_perm', 'walsh_perm', 'set_part', 'set_part_comp', 'boolf', 'a', 'boolf.examples',
                           'boolf.a', 'perm.a', 'sig_perm.a', 'walsh_perm.a')]
CLASSES = {'binv': 'Binv', 'perm': 'Perm', 'sig_perm': 'SigPerm', 'walsh_perm': 'WalshPerm', 'set_part': 'SetPart',
           'set_part_comp': 'SetPartComp', 'boolf': 'Boolf'}

F = ['new', 'Boolf', ['0110 1001 0111 0001'.replace(' ', '')]]
G = ['new', 'Boolf', [E.L([0, 1, 1, 1, 0, 1, 0, 0]), E.L([1, 2, 4])]]
PROBES = {
    'binv': [['op', '&', ['new', 'Binv', ['0111']], ['new', 'Binv', ['1101']]], ['attr', ['new', 'Binv', ['01101']], 'set_part'],
             ['attr', ['new', 'Binv', [], {'intval': 11, 'length': 6}], 'exposet'], ['op', 'str', ['new', 'Binv', ['0111']]]],
    'perm': [['op', '*', ['new', 'Perm', [E.L([1, 2, 0])]], ['new', 'Perm', [E.L([0, 2, 1])]]],
             ['attr', ['new', 'Perm', [E.L([1, 2, 0, 3, 5, 4])]], 'cycle_partition'],
             ['attr', ['new', 'Perm', [E.L([1, 2, 0])]], 'schoute_perm'], ['attr', ['new', 'Perm', [E.L([1, 2, 0])]], 'left_rank']],
    'sig_perm': [['attr', ['new', 'SigPerm', [], {'sequence': E.L([1, ~0, 2])}], 'pair'],
                 ['call', ['new', 'SigPerm', [], {'pair': E.T([3, 4])}], 'matrix', []],
                 ['op', '*', ['new', 'SigPerm', [], {'pair': E.T([3, 4])}], ['new', 'SigPerm', [], {'sequence': E.L([~1, 0])}]]],
    'walsh_perm': [['op', '*', ['new', 'WalshPerm', [E.L([1, 3])]], ['new', 'WalshPerm', [E.L([3, 2])]]],
                   ['call', ['new', 'WalshPerm', [E.L([1, 3, 4])]], 'complement_pattern', [3]],
                   ['attr', ['new', 'WalshPerm', [E.L([1, 3, 4])]], 'inverse']],
    'set_part': [['call', ['new', 'SetPart', [E.L([E.L([0, 2]), E.L([3, 4])])]], 'join', [['new', 'SetPart', [E.L([E.L([2, 3])])]]]],
                 ['call', ['new', 'SetPart', [E.L([E.L([0, 2, 3])])]], 'meet', [['new', 'SetPart', [E.L([E.L([2, 3])])]]]],
                 ['attr', ['new', 'SetPart', [E.L([E.L([0, 2]), E.L([3, 4])])]], 'intval']],
    'set_part_comp': [['call', ['after', ['after', ['new', 'SetPartComp', []], 'set_comp', [0, 2]], 'set_equal', [2, 3]], 'boolf', []],
                      ['call', ['after', ['after', ['new', 'SetPartComp', []], 'set_comp', [0, 2]], 'set_equal', [2, 3]], 'are_comp', [0, 3]]],
    'boolf': [['attr', F, n] for n in ('complement', 'zhe', 'fissions', 'hypersplits', 'bundles', 'faction_minrep', 'filtrated_pairs',
                                       'prefect_boolf', 'splits_equal', 'clan_minrep', 'perm_symmetry_partition')] +
             [['op', '&', F, G], ['op', '^', F, G], ['call', G, 'tt', [5]], ['call', F, 'apply', [2, 0, ~1, 3]],
              ['call', G, 'walsh_spectrum', []], ['call', F, 'find_segments', []], ['call', F, 'twin', []], ['call', F, 'ec_family', []],
              ['call', F, 'wiki_table_row', ['abc']], ['call', F, 'patron_king_index_and_quadrant', [4]],
              ['new', 'Boolf', [], {'multi_and': E.L([F, G, 3])}], ['new', 'Boolf', [], {'zhe': 1234}], ['op', 'str', F]],
    'a': [['fn', D + 'a:int_to_perm', [17]], ['fn', D + 'a:make_linear_boolf', [5, 1]], ['fn', D + 'a:arity_to_walsh_matrix', [2]],
          ['fn', D + 'a:sierpinski', ['bl', 2]], ['fn', D + 'a:inventory_partition', [E.L([0, 1, 0])]]],
    'boolf.examples': [['attr', ['global', D + 'boolf.examples:medusa'], 'atomvals']],
    'boolf.a': [['fn', D + 'boolf.a:twin_int', [100, 3]], ['fn', D + 'boolf.a:sierpinski_partition', [5, 3]]],
    'perm.a': [['fn', D + 'perm.a:left_inversion_count', [E.L([2, 0, 1])]]],
    'sig_perm.a': [['fn', D + 'sig_perm.a:sequence_to_matrix', [E.L([1, ~0])]]],
    'walsh_perm.a': [['fn', D + 'walsh_perm.a:vector_to_matrix', [E.L([1, 3, 4])]]],
}

EXPECT = {}
_code = {}


def short(m):
    return m[len(D):]


def quick_import():
    """compiled code is kept in memory; only the compilation is saved, module code is executed each time"""
    loader = importlib.machinery.SourceFileLoader
    if getattr(loader.get_code, 'sim', False):
        return
    real = loader.get_code

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if not path.startswith(LIB):
            return real(self, fullname)
        if path not in _code:
            _code[path] = self.source_to_code(self.get_data(path), path)
        return _code[path]
    get_code.sim = True
    loader.get_code = get_code


def alone(name):
    try:
        importlib.import_module(D + name)
    except BaseException as ex:
        return ['import: %s: %s' % (type(ex).__name__, ex)] * len(PROBES[name])
    return [cut(answer(e, [])[0]) for e in PROBES[name]]


def before(seed, tier):
    quick_import()
    for d, dirs, files in os.walk(LIB):
        dirs[:] = sorted(x for x in dirs if x not in ('test', 'tests', 'scripts', '__pycache__'))
        for f in sorted(files):
            if f.endswith('.py') and not f.startswith(('_test', 'test')):
                path = os.path.join(d, f)
                try:
                    with open(path, 'rb') as fh:
                        _code[path] = compile(fh.read(), path, 'exec', dont_inherit=True)
                except SyntaxError:
                    pass
    for name in sorted(PROBES):
        kind, val = isolated(alone, name)
        EXPECT[name] = val if kind == 'ok' else ['no answer (%s)' % kind] * len(PROBES[name])


def make(rng, i, tier):
    steps = []
    mods = rng.sample(MODULES, rng.randrange(2, 10))
    if rng.random() < .5:
        mods.sort(key=lambda m: m not in [D + c for c in CLASSES])
    if rng.random() < .8 and D + 'boolf.examples' in mods:
        mods.remove(D + 'boolf.examples')       # takes a second
    threads = rng.random() < .3
    if threads:
        n = rng.choice([2, 2, 3])
        # packages only: importing a package and a module in it from two threads can be refused by Python, whatever the package does
        tops = [m for m in mods if '.' not in short(m)] or [D + 'boolf', D + 'perm']
        parts = [[rng.choice(tops) for _ in range(rng.randrange(1, 3))] for _ in range(n)]
        sched = [[rng.randrange(n), rng.choice([1, 2, 3, 5, 10, 30, 100, 300])] for _ in range(rng.randrange(1, 25))]
        steps.append(['threads', parts, sched, round(rng.random(), 6)])
    faulty = rng.random() < .75
    for m in mods:
        if faulty and rng.random() < .5:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                steps.append(['cut', m, rng.choice(['interrupt', 'memory', 'foreign']),
                              rng.choice([['site', round(rng.random(), 6), round(rng.random(), 6)], ['any', round(rng.random(), 6)]])])
        if rng.random() < .15:
            continue        # never repeated by itself, only through others
        steps.append(['import', m])
        if rng.random() < .7:
            name = short(m)
            ks = list(range(len(PROBES[name])))
            steps.append(['ask', name, sorted(rng.sample(ks, min(len(ks), rng.randrange(1, 5))))])
    for name in rng.sample(sorted(set(PROBES) - {'boolf.examples'}), 4):
        ks = list(range(len(PROBES[name])))
        steps.append(['ask', name, sorted(rng.sample(ks, min(len(ks), 6)))])
    return {'steps': steps}


def classes_agree():
    """there is one class of each name, however it is reached"""
    for m, c in CLASSES.items():
        mod = sys.modules.get(D + m)
        if mod is None or not hasattr(mod, c):
            continue
        cls = getattr(mod, c)
        for n, other in list(sys.modules.items()):
            if n.startswith(D) and isinstance(getattr(other, c, None), type) and getattr(other, c) is not cls:
                if getattr(other, c).__module__ == cls.__module__:
                    return '%s in %s is another class than in %s' % (c, n, D + m)
    return None


def execute(plan):
    quick_import()
    out = {'viol': None, 'faults': {}, 'probes': {}, 'counts': {'imports': 0, 'calls': 0}, 'steps': 0}
    sigs = set()
    done = []

    def count(kind):
        out['faults'][kind] = out['faults'].get(kind, 0) + 1
    for s in plan['steps']:
        out['steps'] += 1
        if s[0] == 'import':
            out['counts']['imports'] += 1
            try:
                importlib.import_module(s[1])
            except BaseException as ex:
                out['viol'] = 'import of %s fails: %s: %s' % (s[1], type(ex).__name__, cut(str(ex), 200))
                break
            done.append(s[1])
        elif s[0] == 'cut':
            sv = T.forked_survey(lambda: importlib.import_module(s[1]))
            k = T.pick_event(s[3], sv[0], sv[1])
            if k is None:
                continue
            where, ex = T.with_fault(lambda: importlib.import_module(s[1]), s[2], k)
            if where:
                count(s[2])
                sigs.add(digest(str(sorted(done)), s[1], where))
                if ex is None:
                    out['probes']['import succeeded in spite of the fault'] = 1
        elif s[0] == 'threads':
            T.EVERYWHERE = True
            old = _thread.allocate_lock
            _thread.allocate_lock = T.SimLock

            def body(ms):
                def run():
                    for m in ms:
                        importlib.import_module(m)
                        name = short(m)
                        got = cut(answer(PROBES[name][0], [])[0])
                        if got != EXPECT[name][0]:
                            raise AssertionError('%s: got %s, alone it is %s' % (E.show(PROBES[name][0]), got, EXPECT[name][0]))
                return run
            sched = T.Sched([body(ms) for ms in s[1]], s[2]).run()
            _thread.allocate_lock = old
            count('preemption')
            out['faults']['preemption'] += len(sched.switches) - 1
            for i, w in sched.switches:
                sigs.add(digest(str(s[1]), str(i), w))
            if sched.deadlock or sched.stalled:
                out['viol'] = 'importing threads wait for each other forever'
                break
            bad = [(i, ex) for i, ex in enumerate(sched.errors) if ex is not None]
            if bad:
                i, ex = bad[0]
                out['viol'] = 'import of %s in thread %d fails: %s: %s' % (s[1][i], i, type(ex).__name__, cut(str(ex), 200))
                break
            done += sum(s[1], [])
        else:
            for k in s[2]:
                out['counts']['calls'] += 1
                try:
                    got = cut(answer(PROBES[s[1]][k], [])[0])
                except BaseException as ex:
                    got = 'raised %s' % type(ex).__name__
                if got != EXPECT[s[1]][k]:
                    out['viol'] = '%s: got %s, imported alone it is %s' % (
                        E.show(PROBES[s[1]][k]), cut(got, 300), cut(EXPECT[s[1]][k], 300))
                    break
            sigs.add(digest(str(sorted(done)), s[1]))
        if not out['viol']:
            out['viol'] = classes_agree()
        if out['viol']:
            break
    out['sigs'] = sorted(sigs)
    out['sig'] = digest(json.dumps(plan))
    out['trivial'] = len(set(done)) < 2
    return out


def shrink(plan):
    for c in shrink_list(plan['steps']):
        yield {'steps': c}
    for i, s in enumerate(plan['steps']):
        if s[0] == 'threads':
            for c in shrink_list(s[2]):
                yield {'steps': plan['steps'][:i] + [[s[0], s[1], c, s[3]]] + plan['steps'][i + 1:]}
        if s[0] == 'ask' and len(s[2]) > 1:
            for k in s[2]:
                yield {'steps': plan['steps'][:i] + [[s[0], s[1], [k]]] + plan['steps'][i + 1:]}


def describe(plan):
    out = []
    for s in plan['steps']:
        if s[0] == 'import':
            out.append('import ' + s[1])
        elif s[0] == 'cut':
            out.append('import %s, cut off by %s at %s' % (s[1], s[2], s[3]))
        elif s[0] == 'threads':
            out.append('threads import %s, schedule %s' % (s[1], s[2]))
        else:
            out += [E.show(PROBES[s[1]][k]) for k in s[2]]
    return '\n'.join(out)
