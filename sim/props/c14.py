"""C14: a segment collection has the same content in whatever order it is filled"""
import contextlib
import io
import itertools
import json

from .. import expr as E
from .. import trace as T
from ..core import cut, digest, shrink_list

ID = 'C14'
LEVEL = 'exploration'
TECHNIQUE = 'seeded histories of requests to several collections at once, with refused, repeated and interrupted requests, against a closure model'
NOTE = ('The model is the least set of sign vectors that holds the requested ones, their boundary parts and the union of any two '
        'neighbours. Interruptions hit questions and repeated requests only; a first request cut short may leave its work half done.')
RUNS = {'quick': 4000, 'thorough': 60000}
RULE = ('a run is 1 to 3 functions of up to 4 atoms, 1 to 4 collections over them, and 4 to 40 requests, questions, refused '
        'requests and interruptions in any order; non-trivial: a request for something already contained and a request that '
        'added more than itself; distinct by the history')
TIME_UNIT = 'requests and questions'
MEASURE = 'distinct (function, content of the collection)'
COMPONENTS = {'real': ['discretehelpers from the working tree, networkx'], 'stub': [],
              'model': ['closure of sign vectors under boundary parts and common unions of neighbours']}
ASSUMPTIONS = ['a request that adds something is not cut short']


def vectors(n):
    return [list(v) for v in itertools.product((-1, 0, 1), repeat=n)]


def close(content, new):
    """least closed set with content (closed) and new"""
    todo = [new]
    while todo:
        v = todo.pop()
        if v in content:
            continue
        content.add(v)
        for i, s in enumerate(v):
            if s:
                w = v[:i] + (-s,) + v[i + 1:]
                if w in content:
                    todo.append(v[:i] + (0,) + v[i + 1:])
            else:
                todo.append(v[:i] + (-1,) + v[i + 1:])
                todo.append(v[:i] + (1,) + v[i + 1:])
    return content


def number(v):
    return sum(1 << i for i, s in enumerate(v) if s == 1)


def ends(v):
    """the two spots of a link"""
    i = v.index(0)
    return tuple(sorted(number(v[:i] + (s,) + v[i + 1:]) for s in (-1, 1)))


def pieces(nodes, edges):
    at = {n: n for n in nodes}

    def top(n):
        while at[n] != n:
            n = at[n]
        return n
    for a, b in edges:
        at[top(a)] = top(b)
    return len({top(n) for n in nodes})


class Model:
    def __init__(self, tt):
        self.n = len(tt).bit_length() - 1
        self.content = set()
        for k, b in enumerate(tt):
            if b == '1':
                close(self.content, tuple(1 if k >> i & 1 else -1 for i in range(self.n)))

    def of(self, dim):
        return sorted(v for v in self.content if v.count(0) == dim)

    def counts(self):
        return [len(self.of(d)) for d in range(self.n + 1)]

    def spots(self):
        return sorted(number(v) for v in self.of(0))

    def links(self):
        out = {}
        for v in self.of(1):
            out.setdefault(v.index(0), set()).add(ends(v))
        return out

    def neighbours(self):
        out = {}
        for v in self.of(2):
            i, j = [k for k, s in enumerate(v) if s == 0]
            for along, across in ((i, j), (j, i)):
                out.setdefault(along, set()).add(frozenset(ends(v[:across] + (s,) + v[across + 1:]) for s in (-1, 1)))
        return out

    def connected(self):
        links, pairs = self.links(), self.neighbours()
        if pieces(self.spots(), [p for s in links.values() for p in s]) != 1:
            return False
        return all(pieces(links.get(k, ()), [tuple(p) for p in pairs.get(k, ())]) <= 1 for k in range(self.n))


def depends(tt):
    n = len(tt).bit_length() - 1
    return all(any(tt[k] != tt[k ^ (1 << i)] for k in range(len(tt))) for i in range(n))


def draw_function(rng):
    n = rng.choice([1, 2, 2, 3, 3, 3, 4, 4])
    while True:
        p = rng.choice([.15, .3, .5, .8])
        tt = ''.join('1' if rng.random() < p else '0' for _ in range(1 << n))
        if depends(tt):
            return [tt, sorted(rng.sample(range(6), n)) if rng.random() < .4 else list(range(n))]


QUESTIONS = ['spots', 'links', 'neighbours', 'counts', 'print', 'find']


def make(rng, i, tier):
    functions = [draw_function(rng) for _ in range(rng.randrange(1, 4))]
    cols = [rng.randrange(len(functions))]
    steps = []
    asked = []
    deep = rng.random()
    for _ in range(rng.randrange(4, 41)):
        u = rng.random()
        k = rng.randrange(len(cols))
        n = len(functions[cols[k]][1])
        v = [0 if rng.random() < deep * .7 else rng.choice([-1, 1]) for _ in range(n)]
        if asked and rng.random() < .3:
            j, w = rng.choice(asked)
            if len(w) == n:
                v = list(w)
        if u < .07 and len(cols) < 4:
            cols.append(rng.randrange(len(functions)))
            steps.append(['new', cols[-1]])
        elif u < .45:
            steps.append([rng.choice(['demand', 'demand', 'add']), k, v])
            asked.append((k, v))
        elif u < .55:
            steps.append(['again', k, round(rng.random(), 6), round(rng.random(), 6), rng.choice(['interrupt', 'memory', None, None])])
        elif u < .6:
            steps.append(['bad', k, rng.choice([v + [1], v[:-1], v[:-1] + [2], v[:-1] + [-3]]), rng.choice(['demand', 'add'])])
        elif u < .75:
            steps.append(['inquire', k, v])
        elif u < .85:
            steps.append(['cut', k, rng.choice(QUESTIONS), rng.choice(['interrupt', 'memory']), round(rng.random(), 6), round(rng.random(), 6)])
        elif u < .95:
            steps.append(['ask', k, rng.choice(QUESTIONS)])
        else:
            steps.append(['look', k])
    return {'functions': functions, 'first': cols[0], 'steps': steps, 'one_list': rng.random() < .3}


class World:
    def __init__(self, plan):
        from discretehelpers.boolf import Boolf
        self.functions = []
        for tt, atoms in plan['functions']:
            self.functions.append(Boolf(tt, atoms))
        self.tts = [f[0] for f in plan['functions']]
        self.cols, self.models = [], []
        self.list = [] if plan['one_list'] else None
        self.new(plan['first'])

    def new(self, f):
        self.cols.append(E.lookup('Segments')(boolf=self.functions[f]))
        m = Model(self.tts[f])
        m.f = f
        self.models.append(m)

    def vector(self, v):
        """the caller's list: a new one each time, or always the same one with changed entries"""
        if self.list is None:
            return list(v)
        self.list[:] = v
        return self.list

    def question(self, k, q):
        c, m = self.cols[k], self.models[k]
        if q == 'spots':
            return sorted(c.get_spots()), m.spots()
        if q == 'links':
            return unordered(c.get_links()), unordered(m.links())
        if q == 'neighbours':
            return unordered(c.get_neighboring_links()), unordered(m.neighbours())
        if q == 'counts':
            return list(c.number_by_dimension), m.counts()
        if q == 'print':
            with contextlib.redirect_stdout(io.StringIO()):
                c.print_segments()
            return None, None
        ok, fresh = self.functions[m.f].find_segments()
        m = Model(self.tts[m.f])
        return [bool(ok), sorted(fresh.get_spots()), unordered(fresh.get_links())], [m.connected(), m.spots(), unordered(m.links())]

    def look(self, k):
        for q in QUESTIONS[:4]:
            got, want = self.question(k, q)
            if got != want:
                return 'collection %d, %s: got %s, expected %s' % (k, q, cut(str(got), 300), cut(str(want), 300))
        c, m = self.cols[k], self.models[k]
        for v in vectors(m.n):
            if bool(c.inquire(self.vector(v))) != (tuple(v) in m.content):
                return 'collection %d: %s is %s contained' % (k, v, 'not' if tuple(v) in m.content else 'wrongly')
        for dim in range(m.n + 1):
            found = getattr(c, 'segments', {}).get(dim, {})
            for v, segment in found.items():
                got = described(segment)
                want = description(v)
                if got != want:
                    return 'collection %d, segment %s describes itself as %s, expected %s' % (k, v, got, want)
        return None


def described(segment):
    inferior = {i: sorted(map(tuple, two)) for i, two in segment.inferior_vectors.items()}
    neighbour = {i: tuple(v) for i, v in segment.neighbor_vectors.items()}
    return tuple(segment.vector), segment.dimension, inferior, neighbour


def description(v):
    other = lambda i, s: v[:i] + (s,) + v[i + 1:]
    zeros = [i for i, s in enumerate(v) if not s]
    return (v, len(zeros), {i: [other(i, -1), other(i, 1)] for i in zeros},
            {i: other(i, -s) for i, s in enumerate(v) if s})


def unordered(d):
    """atom -> pairs of numbers or pairs of such pairs, in a form that does not depend on order"""
    def norm(x):
        return x if isinstance(x, int) else sorted(norm(_) for _ in x)
    return {int(k): sorted(norm(p) for p in s) for k, s in d.items() if s}


def execute(plan):
    w = World(plan)
    viol = None
    faults, probes = {}, {}
    counts = {'requests': 0, 'looks': 0, 'refused requests': 0}
    steps = 0
    sigs = set()

    def probe(name):
        probes[name] = probes.get(name, 0) + 1

    def interrupted(fn, kind, u, v):
        sv = T.forked_survey(fn)
        if sv:
            n = T.pick_event(['site', u, v], sv[0], sv[1])
            if n is not None and T.with_fault(fn, kind, n)[0]:
                faults[kind] = faults.get(kind, 0) + 1

    for s in plan['steps']:
        steps += 1
        op = s[0]
        try:
            if op == 'new':
                w.new(s[1])
                continue
            k = s[1]
            if k >= len(w.cols):
                continue
            c, m = w.cols[k], w.models[k]
            if op in ('demand', 'add'):
                counts['requests'] += 1
                there = tuple(s[2]) in m.content
                before = len(m.content)
                if there:
                    probe('request for something contained')
                if op == 'add' and there:
                    try:
                        c.add(w.vector(s[2]))
                        viol = 'collection %d: adding %s a second time is accepted' % (k, s[2])
                    except Exception:
                        counts['refused requests'] += 1
                else:
                    getattr(c, op)(w.vector(s[2]))
                    close(m.content, tuple(s[2]))
                    if len(m.content) > before + 1:
                        probe('request that brings further segments')
            elif op == 'again':
                have = sorted(m.content)
                if have:
                    v = have[int(s[2] * len(have))]
                    if s[4]:
                        interrupted(lambda: c.demand(list(v)), s[4], s[3], s[2])
                    else:
                        c.demand(w.vector(v))
                    probe('request for something contained')
            elif op == 'bad':
                try:
                    getattr(c, s[3])(w.vector(s[2]))
                    viol = 'collection %d takes %s' % (k, s[2])
                except Exception:
                    counts['refused requests'] += 1
            elif op == 'inquire':
                if bool(c.inquire(w.vector(s[2]))) != (tuple(s[2]) in m.content):
                    viol = 'collection %d: %s is %s contained' % (k, s[2], 'not' if tuple(s[2]) in m.content else 'wrongly')
            elif op == 'cut':
                interrupted(lambda: w.question(k, s[2]), s[3], s[4], s[5])
            elif op == 'ask':
                got, want = w.question(k, s[2])
                if got != want:
                    viol = 'collection %d, %s: got %s, expected %s' % (k, s[2], cut(str(got), 300), cut(str(want), 300))
            else:
                counts['looks'] += 1
                viol = w.look(k)
        except Exception as ex:
            viol = '%s failed: %s: %s' % (show(s), type(ex).__name__, cut(str(ex), 200))
        if viol:
            break
    if not viol:
        try:
            for k in range(len(w.cols)):
                viol = viol or w.look(k)
                sigs.add(digest(w.tts[w.models[k].f], str(sorted(w.models[k].content))))
        except Exception as ex:
            viol = 'final questions failed: %s: %s' % (type(ex).__name__, cut(str(ex), 200))
    full = {'request for something contained', 'request that brings further segments'} <= set(probes)
    return {'viol': viol, 'claims': [], 'faults': faults, 'probes': probes, 'counts': counts, 'steps': steps,
            'sigs': sorted(sigs), 'sig': digest(json.dumps(plan)), 'trivial': not full}


def shrink(plan):
    for c in shrink_list(plan['steps']):
        yield dict(plan, steps=c)
    if plan['one_list']:
        yield dict(plan, one_list=False)


def show(s):
    if s[0] == 'new':
        return 'new collection for function %d' % s[1]
    return '%s %s' % (s[0], ' '.join(map(str, s[1:])))


def describe(plan):
    out = ['function %d: truth table %s, atoms %s' % (i, *f) for i, f in enumerate(plan['functions'])]
    out.append('new collection for function %d' % plan['first'])
    return '\n'.join(out + [show(s) for s in plan['steps']])
