"""C19: objects can be saved, copied and written down at any moment"""
import base64
import contextlib
import copy
import io
import json
import os
import pickle

from .. import catalog as C
from .. import core
from .. import expr as E
from .. import pool as P
from .. import trace as T
from ..canon import canon
from ..core import answer, cut, digest, shrink_list

ID = 'C19'
LEVEL = 'exploration'
TECHNIQUE = 'seeded histories that go on in another process from what was saved; answers compared with a process that never stopped'
NOTE = ('Histories, moments of saving and hash seeds are sampled. Saving is the pickle module with all its protocols from 2 on. '
        'Printed text is read back only where it is complete: partitions without labels over numbers, functions without '
        'superfluous arguments.')
RUNS = {'quick': 1500, 'thorough': 20000}
RULE = ('a run is a history of two to four phases, each in an interpreter with its own hash seed, over 1 to 6 objects: questions, '
        'changes, cut-off questions, failing saves, copies, objects read back from their text; between phases everything is '
        'saved, the process ends and another one loads it; non-trivial: at least 5 answers after a restart; distinct by the history')
TIME_UNIT = 'steps of histories'
MEASURE = 'distinct (object, question, number of restarts before) triples'
COMPONENTS = {'real': ['discretehelpers from the working tree, numpy, bidict; pickle; several Python interpreters'],
              'stub': ['the stream to which a failing save writes'], 'model': ['a fresh process as reference']}
ASSUMPTIONS = ['the processes run the same Python version and the same library']

SEEDS = 3
KINDS = C.KINDS + ['SetPartComp']
HASHED = ('Boolf', 'Binv', 'Perm', 'SigPerm')


# ------------------------------------------------------------------------------------------------ drawing

def relation(rng):
    els = rng.sample(range(-1, 7), 6)
    return ['new', 'SetPartComp', [E.L([E.L(els[:2]), E.L(els[2:4])]), E.L([E.T([els[0], els[4]])])]]


def relation_question(rng, x):
    a, b = rng.sample(range(-1, 7), 2)
    return rng.choice([
        ['attr', x, 'comp_pairs'], ['attr', ['attr', x, 'equal_part'], 'blocks'], ['op', 'str', x],
        ['call', x, 'are_equal', [a, b]], ['call', x, 'are_comp', [a, b]], ['call', x, 'get_comp', [a]],
        ['call', x, 'get_block', [a]], ['call', x, 'related_part', []], ['call', x, 'affected_elements', []],
        ['call', x, 'all_complement_pairs', []], ['call', x, 'number_of_related_blocks', []], ['call', x, 'get_repr', [a]], ['call', x, 'int_matches', [rng.randrange(64)]]])


def large(rng, kind):
    """an object with a longer text than usual, or None"""
    if kind == 'Binv':
        n = rng.choice([17, 40, 130, 300])
        p = rng.choice([.1, .5, .9])
        ones = [i for i in range(n) if rng.random() < p]
        return ['new', 'Binv', [], {'exposet': E.L(ones), 'length': n}]
    if kind == 'Boolf':
        n = rng.choice([5, 5, 6])
        p = rng.choice([.1, .5, .9])
        spots = [i for i in range(1 << n) if rng.random() < p]
        return ['new', 'Boolf', [], {'fullspots': E.L(spots), 'atomvals': E.L(sorted(rng.sample(range(9), n)))}]
    if kind == 'Perm':
        n = rng.choice([12, 30])
        p = list(range(n))
        rng.shuffle(p)
        return ['new', 'Perm', [E.L(p)], {'perilen': n} if rng.random() < .4 else {}]
    if kind == 'SetPart':
        els = rng.sample(range(-20, 60), 24)
        return ['new', 'SetPart', [E.L([E.L(els[:9]), E.L(els[9:16]), E.L(els[16:])])], {'domain': 'Z'}]


def change(rng, kind):
    if kind == 'SetPartComp':
        return rng.choice(['set_equal', 'set_comp']), rng.sample(range(-1, 7), 2)
    a, b = rng.sample(range(9), 2)
    return rng.choice([('merge_pair', [a, b]), ('merge_pair', [a, b]), ('merge_many', [E.L(rng.sample(range(9), 3))]),
                       ('add_label_to_element', [a, 'l%d' % rng.randrange(3)])])


def make(rng, i, tier):
    d = P.Drawer(rng, P.universe(rng.seed_no, i // 400))
    kinds = rng.choices(KINDS, [6, 2, 2, 2, 2, 4, 3], k=rng.choice([1, 1, 2]))
    focus = P.focus_names(rng, rng.choice([3, 8, 20]))
    steps = []

    def new():
        kind = rng.choice(kinds)
        if kind == 'SetPartComp':
            d.add(relation(rng), kind)
        else:
            big = large(rng, kind) if rng.random() < .1 else None
            if big:
                d.add(big, kind)
                light.add(len(d.makes) - 1)
            else:
                d.literal(kind)
        steps.append(['make', d.makes[-1], kind])

    def question(k):
        if d.kinds[k] == 'SetPartComp':
            return relation_question(rng, ['ref', k])
        if k in light:
            return ['op', rng.choice(['str', 'str', 'repr']), ['ref', k]]
        return d.question(k, False, focus)
    light = set()           # large objects get only cheap questions
    new()
    left = rng.choice([1, 1, 2, 3])
    n = rng.randrange(15, 50)
    stops = sorted(rng.sample(range(3, n * 2 // 3), left))
    for t in range(n):
        if t in stops:
            steps.append(['restart', rng.randrange(SEEDS), rng.choice([2, 4, 5])])
            continue
        u = rng.random()
        k = rng.randrange(len(d.makes))
        if u < .12 and len(d.makes) < 6:
            heavy = {'SetPartComp'} | {d.kinds[j] for j in light}
            same = [j for j in range(len(d.makes)) if d.kinds[j] not in heavy]
            if rng.random() < .5 and same:
                d.derived(rng.choice(same))
                steps.append(['make', d.makes[-1], d.kinds[-1]])
            else:
                new()
        elif u < .2:
            how = rng.choice(['deep', 'pickle', 'text'])
            if how == 'text' and unwritten(d.recipes[k]):
                how = 'deep'
            steps.append(['copy', how, k])
            d.add(d.makes[k], d.kinds[k])
            if k in light:
                light.add(len(d.makes) - 1)
        elif u < .4 and d.kinds[k] in ('SetPart', 'SetPartComp'):
            m, args = change(rng, d.kinds[k])
            steps.append(['change', k, m, args])
        elif u < .5:
            steps.append(['cut', [rng.choice(['interrupt', 'memory']), round(rng.random(), 6), round(rng.random(), 6)], question(k)])
        elif u < .55:
            steps.append(['badsave', rng.randrange(400)])
        else:
            steps.append(['ask', question(k)])
    return {'steps': steps, 'seed': rng.seed_no}


def unwritten(recipe):
    """the text does not tell everything about the object"""
    return 'skip_deflation' in json.dumps(recipe)


# ------------------------------------------------------------------------------------------------ one phase, in one process

class FullDisk(io.RawIOBase):
    def __init__(self, room):
        self.room = room

    def writable(self):
        return True

    def write(self, b):
        self.room -= len(b)
        if self.room < 0:
            raise OSError(28, 'No space left on device')
        return len(b)


def text_of(x):
    if type(x).__name__ == 'SetPart' and (x.block_labels or not (
            isinstance(x.domain, str) or all(isinstance(_, int) for _ in x.domain))):
        return None
    if type(x).__name__ == 'SetPartComp' and x.equal_part.block_labels:
        return None
    return str(x)


def read(text):
    return eval(text, {k: E.lookup(k) for k in KINDS})


def execute(phase):
    """phase: steps without restarts, what was saved before, recipes of the objects so far"""
    steps, recipes, kinds = phase['steps'], list(phase['recipes']), list(phase['kinds'])
    restarts = phase['restarts']
    out = {'claims': [], 'faults': {}, 'probes': {}, 'counts': {}, 'sigs': [], 'viol': None, 'good': 0}

    def count(box, what):
        out[box][what] = out[box].get(what, 0) + 1
    slots = []
    if phase['saved'] is not None:
        slots, table, crowd = pickle.loads(base64.b64decode(phase['saved']))
        for i, x in enumerate(slots):
            if x is None:
                slots[i] = LookupError('could not be made')
        for i, x in enumerate(slots):
            if kinds[i] not in HASHED or isinstance(x, Exception):
                continue
            count('counts', 'lookups in loaded sets and dictionaries')
            for y, what in ((x, 'the loaded object'), (E.ev(recipes[i], []), 'an object built again')):
                if y not in crowd or table.get(y) is None or not slots[table[y]] == x:
                    out['viol'] = 'after restart %d: x%d: %s is not found in the loaded set or dictionary' % (restarts, i, what)
                    return out
    for s in steps:
        if s[0] == 'make':
            try:
                slots.append(E.ev(s[1], slots))
            except Exception as ex:
                slots.append(ex)
            recipes.append(E.resolve(s[1], recipes))
            kinds.append(s[2])
            continue
        if s[0] == 'badsave':
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    pickle.dump(keep(slots), FullDisk(s[1]))
            except OSError:
                count('faults', 'save that fails')
            continue
        if s[0] == 'copy':
            x = slots[s[2]] if s[2] < len(slots) else LookupError()
            recipes.append(recipes[s[2]] if s[2] < len(recipes) else None)
            kinds.append(kinds[s[2]] if s[2] < len(kinds) else None)
            if isinstance(x, Exception):
                slots.append(x)
                continue
            how = s[1]
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    if how == 'text' and (text_of(x) is None or unwritten(recipes[-1])):
                        how = 'deep'
                    y = {'deep': lambda: copy.deepcopy(x), 'pickle': lambda: pickle.loads(pickle.dumps(x)),
                         'text': lambda: read(text_of(x))}[how]()
                    same = canon(y) == canon(x)
                    if kinds[-1] != 'WalshPerm':
                        same = same and bool(x == y)
                    if kinds[-1] in HASHED:
                        same = same and hash(x) == hash(y)
            except Exception as ex:
                out['viol'] = 'copy of x%d (%s) failed: %s: %s' % (s[2], how, type(ex).__name__, cut(str(ex), 200))
                return out
            count('counts', 'copies (%s)' % how)
            if not same:
                out['viol'] = 'copy of x%d (%s) is %s, the original is %s' % (s[2], how, cut(canon(y), 200), cut(canon(x), 200))
                return out
            slots.append(y)
            continue
        e = s[-1] if s[0] in ('ask', 'cut') else ['ref', s[1]]
        if any(r >= len(slots) or isinstance(slots[r], Exception) for r in E.refs(e)):
            continue
        if s[0] == 'change':
            o = slots[s[1]]
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    getattr(o, s[2])(*[E.ev(_, slots) for _ in s[3]])
                except Exception:
                    count('counts', 'changes refused')
            recipes[s[1]] = ['after', recipes[s[1]], s[2], s[3]]
            count('counts', 'changes')
        elif s[0] == 'cut':
            def fn():
                with contextlib.redirect_stdout(io.StringIO()):
                    E.ev(e, slots)
            sv = T.forked_survey(fn)
            if sv and sv[0]:
                k = T.pick_event(['site', s[1][1], s[1][2]], sv[0], sv[1])
                if k is not None and T.with_fault(fn, s[1][0], k)[0]:
                    count('faults', s[1][0])
        else:
            text = cut(answer(e, slots)[0])
            out['claims'].append([E.resolve(e, recipes), text, 'after %d restarts: %s' % (restarts, E.show(e))])
            out['sigs'].append(digest(json.dumps(out['claims'][-1][0]), str(restarts)))
            out['good'] += restarts > 0 and not text.startswith('raised')
    for i, x in enumerate(slots):
        if not isinstance(x, Exception):
            with contextlib.redirect_stdout(io.StringIO()):
                out['claims'].append([recipes[i], cut(canon(x)), 'x%d in phase %d' % (i, restarts)])
    out['recipes'], out['kinds'] = recipes, kinds
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            out['saved'] = base64.b64encode(pickle.dumps(keep(slots, kinds), protocol=phase['protocol'])).decode()
    except Exception as ex:
        out['viol'] = 'saving in phase %d failed: %s: %s' % (restarts, type(ex).__name__, cut(str(ex), 200))
    return out


def keep(slots, kinds=None):
    """what is saved: the objects, a dictionary with them as keys, a set of them"""
    some = [(i, x) for i, x in enumerate(slots) if not isinstance(x, Exception)
            and (kinds[i] if kinds else type(x).__name__) in HASHED]
    return [None if isinstance(x, Exception) else x for x in slots], {x: i for i, x in some}, {x for _, x in some}


# ------------------------------------------------------------------------------------------------ the whole run

_servers = {}
_refs = {}


def hash_seed(seed, k):
    return str(int(digest('%s/restart/%s' % (seed, k)), 16) % 4294967295 + 1)


def server(seed, k):
    from ..server import Server
    key = (os.getpid(), seed, k)
    if key not in _servers:
        _servers[key] = Server(ID, {'PYTHONHASHSEED': hash_seed(seed, k)})
    return _servers[key]


def phases(plan):
    out = [{'steps': [], 'at': None, 'protocol': 4}]
    for s in plan['steps']:
        if s[0] == 'restart':
            out[-1]['protocol'] = s[2]
            out.append({'steps': [], 'at': s[1], 'protocol': 4})
        else:
            out[-1]['steps'].append(s)
    return out


def live(phase, seed, timeout):
    for t in (timeout, 2 * timeout):
        if phase['at'] is None:
            kind, res = core.isolated(execute, phase, timeout=t)
        else:
            s = server(seed, phase['at'])
            s.send(phase, t)
            kind, res = s.receive()
        if kind != 'hang':
            return kind, res
    return 'hang', None


def judge(plan, timeout):
    refs = _refs.setdefault(os.getpid(), core.References())
    total = {'steps': len(plan['steps']), 'sig': digest(json.dumps(plan['steps'])), 'counts': {}, 'probes': {}, 'faults': {},
             'sigs': [], 'trivial': True}
    state = {'saved': None, 'recipes': [], 'kinds': []}
    good = 0
    for n, phase in enumerate(phases(plan)):
        kind, res = live(dict(phase, restarts=n, **state), plan['seed'], timeout)
        if kind == 'error':
            raise core.HarnessError(res)
        if kind == 'hang':
            return 'phase %d does not come to an end' % n, total
        if kind == 'died':
            return 'the process of phase %d died (status %s)' % (n, res), total
        if n:
            res['faults']['process ended, another one with another hash seed went on'] = 1
        for box in ('faults', 'counts', 'probes'):
            for k, v in res[box].items():
                total[box][k] = total[box].get(k, 0) + v
        total['counts']['answers compared'] = total['counts'].get('answers compared', 0) + len(res['claims'])
        total['sigs'] = sorted(set(total['sigs']) | set(res['sigs']))
        good += res['good']
        for recipe, got, what in res['claims']:
            want = refs.get(recipe)
            if got != want:
                return '%s: got %s, a process that never stopped says %s' % (what, cut(got, 400), cut(want, 400)), total
        if res['viol']:
            return res['viol'], total
        state = {k: res[k] for k in state}
    total['trivial'] = good < 5
    return None, total


def shrink(plan):
    steps = plan['steps']
    keepers = ('make', 'copy')
    for c in shrink_list([i for i, s in enumerate(steps) if s[0] not in keepers]):
        ok = set(c) | {i for i, s in enumerate(steps) if s[0] in keepers}
        yield dict(plan, steps=[s for i, s in enumerate(steps) if i in ok])
    made = [i for i, s in enumerate(steps) if s[0] in keepers]
    for slot, i in reversed(list(enumerate(made))):
        rest = [s for j, s in enumerate(steps) if j != i]
        if any(slot in used(s) for s in rest):
            continue
        yield dict(plan, steps=[lowered(s, slot) for s in rest])


def used(s):
    if s[0] == 'copy':
        return [s[2]]
    if s[0] == 'change':
        return [s[1]]
    return E.refs(s[1] if s[0] == 'make' else s[-1] if s[0] in ('ask', 'cut') else [])


def lowered(s, gone):
    from .c06 import renumber
    s = list(s)
    if s[0] == 'copy':
        s[2] -= s[2] > gone
    elif s[0] == 'change':
        s[1] -= s[1] > gone
    elif s[0] == 'make':
        s[1] = renumber(s[1], gone)
    elif s[0] in ('ask', 'cut'):
        s[-1] = renumber(s[-1], gone)
    return s


def describe(plan):
    out, n = [], 0
    for s in plan['steps']:
        if s[0] == 'make':
            out.append('x%d = %s' % (n, E.show(s[1])))
            n += 1
        elif s[0] == 'copy':
            out.append('x%d = copy of x%d (%s)' % (n, s[2], s[1]))
            n += 1
        elif s[0] == 'change':
            out.append('x%d.%s(%s)' % (s[1], s[2], ', '.join(E.show(_) for _ in s[3])))
        elif s[0] == 'ask':
            out.append(E.show(s[1]))
        elif s[0] == 'cut':
            out.append('%s       # %s inside' % (E.show(s[2]), s[1][0]))
        elif s[0] == 'restart':
            out.append('--- saved with protocol %d; goes on in a process with hash seed %s' % (s[2], hash_seed(plan['seed'], s[1])))
        else:
            out.append('a save that fails after %d bytes' % s[1])
    return '\n'.join(out)
