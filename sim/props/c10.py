"""C10: equality, order and hash stay fixed and consistent for an object's lifetime"""
import contextlib
import copy
import io
import json

from .. import catalog as C
from .. import expr as E
from .. import pool as P
from .. import trace as T
from ..core import answer, cut, digest, shrink_list

ID = 'C10'
LEVEL = 'exploration'
TECHNIQUE = 'seeded histories of building equal objects by different routes, questions, interrupted questions and container use'
NOTE = ('Relations between all objects of a pool are recorded whenever they are looked at and must never change; the laws are '
        'checked on each record, and the values against a fresh process. Objects of different classes are not compared.')
RUNS = {'quick': 1600, 'thorough': 25000}
RULE = ('a run is a pool of 3 to 9 objects of one class, in part built to be equal by different routes, and a history of '
        'questions, interrupted questions, new objects, insertions into a set and a dictionary, and looks at all relations; '
        'non-trivial: at least one pair of equal and one of unequal objects was looked at twice; distinct by the history')
TIME_UNIT = 'calls in histories'
MEASURE = 'distinct (pair of object recipes, relation) looked at'
COMPONENTS = {'real': ['discretehelpers from the working tree, numpy, sympy, networkx, bidict; Python set and dict'], 'stub': [],
              'model': ['laws of equivalence, order and hashing; a fresh process as reference']}
ASSUMPTIONS = ['objects are compared with objects of their own class only']

KINDS = ['Boolf', 'Boolf', 'Boolf', 'Binv', 'Binv', 'Perm', 'Perm', 'SigPerm', 'WalshPerm']
HASHABLE = ('Boolf', 'Binv', 'Perm', 'SigPerm')
ORDERED = ('Boolf', 'Binv')


def routes(kind, x, rng):
    """expressions for an object equal to x; y stands for another object of the pool"""
    if kind == 'Boolf':
        out = [['new', 'Boolf', [['attr', x, 'root'], ['attr', x, 'atomvals']]],
               ['op', '~', ['op', '~', x]], ['op', '&', x, x], ['op', '|', x, x],
               ['new', 'Boolf', [['call', x, 'tt', []]]],
               ['new', 'Boolf', [], {'zhe': ['attr', x, 'zhe']}],
               ['new', 'Boolf', [], {'fullspots': ['attr', x, 'fullspots'], 'atomvals': ['attr', x, 'atomvals']}],
               ['call', ['call', x, 'twin', [['attr', x, 'adicity']]], 'twin', [['attr', x, 'adicity']]],
               ['attr', ['attr', x, 'reverse'], 'reverse'],
               ['new', 'Boolf', [], {'multi_or': E.L([x, x])}],
               ['new', 'Boolf', [], {'multi_and': E.L([x])}],
               ['op', '^', ['op', '^', x, ['op', '~', x]], ['op', '~', x]],
               ['copy', x]]
    elif kind == 'Binv':
        out = [['new', 'Binv', [['attr', x, 'vector']]], ['new', 'Binv', [['attr', x, 'string']]],
               ['new', 'Binv', [], {'intval': ['attr', x, 'intval'], 'length': ['attr', x, 'length']}],
               ['new', 'Binv', [], {'exposet': ['attr', x, 'exposet'], 'length': ['attr', x, 'length']}],
               ['op', '~', ['op', '~', x]], ['attr', ['attr', x, 'complement'], 'complement'],
               ['op', '&', x, x], ['op', '|', x, x], ['new', 'Binv', [x]],
               ['call', ['call', x, 'flip_bit', [0]], 'flip_bit', [0]], ['copy', x]]
    elif kind == 'Perm':
        out = [['attr', ['attr', x, 'inverse'], 'inverse'], ['op', '*', x, ['op', '*', x, ['attr', x, 'inverse']]],
               ['op', '**', x, 1], ['op', '**', ['op', '**', x, -1], -1], ['copy', x],
               ['op', '*', ['op', '**', x, 2], ['attr', x, 'inverse']],
               ['new', 'Perm', [['attr', x, 'mapping']], {'perilen': ['attr', x, 'perilen']}]]
    elif kind == 'SigPerm':
        out = [['attr', ['attr', x, 'inverse'], 'inverse'], ['new', 'SigPerm', [], {'sequence': ['call', x, 'sequence', []]}],
               ['new', 'SigPerm', [], {'pair': ['attr', x, 'pair']}], ['copy', x],
               ['op', '*', x, ['op', '*', x, ['attr', x, 'inverse']]]]
    else:
        out = [['attr', ['attr', x, 'inverse'], 'inverse'], ['attr', ['attr', x, 'transpose'], 'transpose'],
               ['op', '**', x, 1], ['copy', x], ['op', '*', x, ['op', '*', x, ['attr', x, 'inverse']]]]
    return rng.choice(out)


def make(rng, i, tier):
    uni = P.universe(rng.seed_no, i // 400)
    kind = rng.choice(KINDS)
    d = P.Drawer(rng, uni)
    steps, group = [], []

    def base():
        d.literal(kind)
        group.append(len(group))
        steps.append(['make', d.makes[-1], None])

    def twin():
        k = rng.randrange(len(d.makes))
        if E.size(d.recipes[k]) > 150:
            return base()
        e = routes(kind, ['ref', k], rng)
        d.add(e, kind)
        steps.append(['make', e, k])

    def derived():
        d.derived()
        steps.append(['make', d.makes[-1], None])

    base()
    for _ in range(rng.randrange(2, 6)):
        rng.choice([base, twin, twin, derived])()
    focus = P.focus_names(rng, rng.choice([4, 10]))
    for _ in range(rng.randrange(6, 25)):
        u = rng.random()
        k = rng.randrange(len(d.makes))
        if u < .4:
            steps.append(['ask', d.question(k, False, focus)])
        elif u < .5:
            steps.append(['cut', d.question(k, False, focus), rng.choice(['interrupt', 'memory']), round(rng.random(), 6),
                          round(rng.random(), 6)])
        elif u < .62 and len(d.makes) < 9:
            rng.choice([base, twin, twin, derived])()
        elif u < .8:
            steps.append(['put', k, rng.randrange(2)])
        else:
            steps.append(['look'])
    steps.append(['look'])
    return {'kind': kind, 'steps': steps}


def relate(x, y, kind):
    out = [x == y, x != y]
    if kind in ORDERED:
        out += [x < y, x <= y, x > y, x >= y]
    return [bool(_) for _ in out]


def quietly(f, *args):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args)


class World:
    def __init__(self, plan):
        self.kind = plan['kind']
        self.slots, self.recipes, self.same = [], [], []
        self.rel, self.hashes = {}, {}
        self.set, self.dict = set(), {}
        self.inset, self.indict = set(), {}
        self.ever = {}
        self.claims, self.seen = [], set()

    def live(self):
        return [i for i, x in enumerate(self.slots) if not isinstance(x, Exception)]

    def name(self, i):
        return 'x%d' % i

    def look(self):
        live = self.live()
        kind = self.kind
        for i in live:
            for j in live:
                r = relate(self.slots[i], self.slots[j], kind)
                self.ever[(i, j)] = self.ever.get((i, j), 0) + 1
                old = self.rel.setdefault((i, j), r)
                if old != r:
                    return 'relations of x%d and x%d changed from %s to %s' % (i, j, old, r)
                if r[1] == r[0]:
                    return 'x%d == x%d and x%d != x%d are both %s' % (i, j, i, j, r[0])
                if kind in ORDERED:
                    eq, ne, lt, le, gt, ge = r
                    if lt and gt or eq and (lt or gt):
                        return 'x%d, x%d: contradicting relations %s' % (i, j, r)
                    if le != (lt or eq) or ge != (gt or eq):
                        return 'x%d, x%d: <= or >= does not fit to < and ==: %s' % (i, j, r)
        for i in live:
            if not self.rel[(i, i)][0]:
                return 'x%d is not equal to itself' % i
            for j in live:
                if self.rel[(i, j)][0] != self.rel[(j, i)][0]:
                    return 'x%d == x%d is not symmetric' % (i, j)
                if kind in ORDERED and self.rel[(i, j)][2] != self.rel[(j, i)][4]:
                    return 'x%d < x%d differs from x%d > x%d' % (i, j, j, i)
                if self.rel[(i, j)][0]:
                    for k in live:
                        if self.rel[(i, k)] != self.rel[(j, k)]:
                            return 'x%d equals x%d, but x%d sees them differently' % (i, j, k)
                elif kind in ORDERED and self.rel[(i, j)][2]:
                    for k in live:
                        if self.rel[(j, k)][2] and not self.rel[(i, k)][2]:
                            return 'x%d < x%d < x%d, but not x%d < x%d' % (i, j, k, i, k)
        for i in live:
            k = self.same[i]
            if k is not None and not isinstance(self.slots[k], Exception) and not self.rel[(i, k)][0] \
                    and self.route_expected(self.slots[k]):
                return 'x%d was built to be equal to x%d, but is not: %s, %s' % (
                    i, k, cut(str(self.slots[i]), 200), cut(str(self.slots[k]), 200))
        if kind in HASHABLE:
            for i in live:
                h = hash(self.slots[i])
                if self.hashes.setdefault(i, h) != h:
                    return 'the hash of x%d has changed' % i
            for i in live:
                for j in live:
                    if self.rel[(i, j)][0] and self.hashes[i] != self.hashes[j]:
                        return 'x%d == x%d with different hashes' % (i, j)
            for i in live:
                there = any(self.rel[(i, j)][0] for j in self.inset)
                if (self.slots[i] in self.set) != there:
                    return 'x%d %s found in the set' % (i, 'is not' if there else 'is')
                hit = [v for j, v in self.indict.items() if self.rel[(i, j)][0]]
                if (self.slots[i] in self.dict) != bool(hit):
                    return 'x%d %s found in the dictionary' % (i, 'is not' if hit else 'is')
                if hit and self.dict[self.slots[i]] not in hit:
                    return 'x%d finds the wrong entry in the dictionary' % i
            if len(self.set) != len(self.classes(self.inset)) or len(self.dict) != len(self.classes(self.indict)):
                return 'equal objects are twice in a set or dictionary, or different ones only once'
        for i in live:
            for j in live:
                for op in ('==', '<') if kind in ORDERED else ('==',):
                    recipe = ['op', op, self.recipes[i], self.recipes[j]]
                    key = json.dumps(recipe)
                    if key not in self.seen:
                        self.seen.add(key)
                        if int(digest(key), 16) % 4 == 0:       # a quarter of them is compared with a fresh process
                            val = self.rel[(i, j)][0 if op == '==' else 2]
                            self.claims.append([recipe, 'i%d' % val, 'x%d %s x%d' % (i, op, j)])
        return None

    def route_expected(self, x):
        """functions kept with needless atoms and empty vectors have several forms"""
        if self.kind == 'Boolf':
            return not x.is_inflated
        return self.kind != 'Binv' or len(x) > 0

    def classes(self, members):
        reps = []
        for i in members:
            if not any(self.rel[(i, j)][0] for j in reps):
                reps.append(i)
        return reps


def execute(plan):
    w = World(plan)
    viol = None
    faults, probes, counts = {}, {}, {'looks': 0, 'objects': 0, 'objects refused': 0}
    steps = 0
    for s in plan['steps']:
        steps += 1
        if s[0] == 'make':
            w.recipes.append(E.resolve(s[1], w.recipes))
            w.same.append(s[2])
            try:
                if any(isinstance(w.slots[r], Exception) for r in E.refs(s[1])):
                    raise ValueError
                w.slots.append(quietly(E.ev, s[1], w.slots))
                counts['objects'] += 1
            except Exception as ex:
                w.slots.append(ex)
                counts['objects refused'] += 1
            continue
        if s[0] in ('ask', 'cut'):
            if any(r >= len(w.slots) or isinstance(w.slots[r], Exception) for r in E.refs(s[1])):
                continue
            if s[0] == 'ask':
                answer(s[1], w.slots)
            else:
                sv = T.forked_survey(lambda: quietly(E.ev, s[1], w.slots))
                if sv:
                    k = T.pick_event(['site', s[3], s[4]], sv[0], sv[1])
                    if k is not None:
                        where, _ = T.with_fault(lambda: quietly(E.ev, s[1], w.slots), s[2], k)
                        if where:
                            faults[s[2]] = faults.get(s[2], 0) + 1
            continue
        try:
            if s[0] == 'put':
                if w.kind in HASHABLE and not isinstance(w.slots[s[1]], Exception):
                    if s[2]:
                        w.dict[w.slots[s[1]]] = s[1]
                        w.indict[s[1]] = s[1]
                    else:
                        w.set.add(w.slots[s[1]])
                        w.inset.add(s[1])
                    probes['object put into a container'] = probes.get('object put into a container', 0) + 1
            else:
                counts['looks'] += 1
                viol = w.look()
        except Exception as ex:
            viol = 'comparison or hash failed: %s: %s' % (type(ex).__name__, cut(str(ex), 200))
        if viol:
            break
    twice = [k for k, n in w.ever.items() if n > 1]
    eq = any(w.rel[k][0] for k in twice if k[0] != k[1])
    ne = any(not w.rel[k][0] for k in twice)
    if eq and ne:
        probes['equal and unequal pairs looked at again'] = 1
    return {'viol': viol, 'claims': w.claims, 'faults': faults, 'probes': probes, 'counts': counts,
            'steps': steps, 'sigs': sorted({digest(json.dumps(w.recipes[i]), json.dumps(w.recipes[j]), str(r))
                                            for (i, j), r in w.rel.items()}),
            'sig': digest(json.dumps(plan['steps'])), 'trivial': not (eq and ne)}


def shrink(plan):
    from .c06 import renumber
    steps = plan['steps']
    for c in shrink_list([i for i, s in enumerate(steps) if s[0] != 'make']):
        keep = set(c) | {i for i, s in enumerate(steps) if s[0] == 'make'}
        yield dict(plan, steps=[s for i, s in enumerate(steps) if i in keep])
    makes = [i for i, s in enumerate(steps) if s[0] == 'make']
    for slot, i in reversed(list(enumerate(makes))):
        if any(uses(s, slot) for j, s in enumerate(steps) if j != i):
            continue
        out = []
        for j, s in enumerate(steps):
            if j == i:
                continue
            if s[0] == 'make':
                out.append(['make', renumber(s[1], slot), s[2] if s[2] is None or s[2] < slot else s[2] - 1])
            elif s[0] == 'put':
                out.append(['put', s[1] - (s[1] > slot), s[2]])
            elif s[0] == 'look':
                out.append(s)
            else:
                out.append([s[0], renumber(s[1], slot)] + s[2:])
        yield dict(plan, steps=out)


def uses(s, slot):
    if s[0] == 'put':
        return s[1] == slot
    if s[0] == 'look':
        return False
    return slot in E.refs(s[1]) or s[0] == 'make' and s[2] == slot


def describe(plan):
    out, n = [], 0
    for s in plan['steps']:
        if s[0] == 'make':
            out.append('x%d = %s%s' % (n, E.show(s[1]), '' if s[2] is None else '      # equal to x%d' % s[2]))
            n += 1
        elif s[0] == 'ask':
            out.append(E.show(s[1]))
        elif s[0] == 'cut':
            out.append('cut off by %s at %s: %s' % (s[2], s[3:], E.show(s[1])))
        elif s[0] == 'put':
            out.append('put x%d into the %s' % (s[1], 'dictionary' if s[2] else 'set'))
        else:
            out.append('look at all relations')
    return '\n'.join(out)
