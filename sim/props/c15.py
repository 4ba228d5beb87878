"""C15: sequences handed out step by step do not disturb each other"""
import json

from .. import catalog as C
from .. import expr as E
from .. import pool as P
from .. import trace as T
from ..canon import canon
from ..core import answer, cut, digest, shrink_list

ID = 'C15'
LEVEL = 'exploration'
TECHNIQUE = 'seeded interleavings of several generators: advanced in turns and by threads, abandoned, broken by exceptions, fed to functions'
NOTE = ('Each sequence is compared with the one a fresh process gets by consuming it alone. A generator broken by an exception '
        'inside it is finished; everything else must go on unharmed. Only functions that take any iterable are fed with generators.')
RUNS = {'quick': 3000, 'thorough': 40000}
RULE = ('a run is 2 to 8 generators (some of them twice the same) and 8 to 60 steps: advance, start again, abandon, break, pass on '
        'as input, pass on input that calls the library in between, other questions, several threads; non-trivial: at least two '
        'generators were half consumed at the same time; distinct by the history')
TIME_UNIT = 'steps'
MEASURE = 'distinct (set of positions of all open generators)'
COMPONENTS = {'real': ['discretehelpers from the working tree, factoradic; thread switches at chosen lines'], 'stub': [],
              'model': ['a fresh process that consumes each generator alone']}
ASSUMPTIONS = ['one generator is advanced by one thread at a time', 'containers given to a generator are left alone while it is in use']

BIG = 10 ** 9
A, BA = 'discretehelpers.a:', 'discretehelpers.boolf.a:'
GENS = [A + 'make_atompattern_gen', A + 'schoute_coset_gen', A + 'powerset', BA + 'vector_to_twin_gen', BA + 'exposet_to_twin_gen',
        BA + 'zhe_vector_to_prefect_gen', BA + 'zhe_exposet_to_prefect_gen'] + [
            BA + 'atoms_to_%s_gen' % _ for _ in ('and', 'or', 'xor', 'xand', 'eq', 'sand', 'gand', 'esand', 'osand')]

# functions that take any iterable: name, place of the argument
EATERS = [(A + 'exposet_to_int', 0), (A + 'vector_to_int', 0), (A + 'powerset', 0), (A + 'flatten', 0), (A + 'multi_lcm', 0),
          (A + 'logic_abs_vector', 0), (A + 'logic_str_vector', 0), (A + 'sorted_colex', 0), (A + 'subdict', 1),
          (A + 'multigrade_bitwise', 0), (A + 'atompattern_to_signed_index', 0), (A + 'balanced_ternary_vector_to_string', 0),
          ('discretehelpers.binv.a:to_string', 0), (BA + 'exposet_to_twin_gen', 0), (BA + 'zhe_exposet_to_prefect_gen', 0),
          (BA + 'sequence_to_entry_counts', 0), (BA + 'sort_each_layer', 0),
          ('discretehelpers.perm.a:inversion_set_to_count', 0), ('discretehelpers.perm.a:inversion_set_to_permutation', 0)]
# ... of which these take the zeros and ones, numbers or tuples that the generators hand out
DIGITS = [A + 'vector_to_int', A + 'logic_abs_vector', A + 'logic_str_vector', BA + 'sequence_to_entry_counts']


def draw_gen(rng):
    name = rng.choice(GENS)
    n = rng.choice([2, 3, 3, 4, 4, 5]) if name != A + 'schoute_coset_gen' else rng.choice([3, 3, 4])
    if name == A + 'make_atompattern_gen':
        return ['fn', name, [rng.randrange(-n, n), n], {'negate': rng.choice([True, False])}]
    if name == A + 'schoute_coset_gen':
        k = rng.sample(range(n), rng.randrange(n + 1))
        v = rng.sample(range(n), len(k))
        return ['fn', name, [sum(1 << _ for _ in k), sum(1 << _ for _ in v), n]]
    if name == A + 'powerset':
        return ['fn', name, [E.L(rng.sample(range(9), n))]]
    if 'vector' in name:
        return ['fn', name, [E.L(C.bits(rng, 1 << n)), n]]
    if 'exposet' in name:
        return ['fn', name, [E.L(rng.sample(range(1 << n), rng.randrange(1, 1 << n))), n]]
    return ['fn', name, [E.L(rng.sample(range(n), rng.randrange(n + 1))), n]]


def eater(rng):
    name, at = rng.choice(EATERS)
    return C.helper_call(rng, name), at


def draw_schedule(rng, nt):
    return [[rng.randrange(nt), rng.choice([1, 2, 5, 13, 40])] for _ in range(rng.randrange(3, 25))]


def make(rng, i, tier):
    uni = P.universe(rng.seed_no, i // 400)
    d = P.Drawer(rng, uni)
    d.literal('Boolf')
    sources = [draw_gen(rng) for _ in range(rng.randrange(1, 5))]
    n = 0
    steps = []
    focus = [_ for _ in P.focus_names(rng, 8) if 'twin' in _ or 'prefect' in _ or 'zhe' in _] or ['zhe', 'prefect_boolf', 'quadrant']
    for _ in range(rng.randrange(8, 61)):
        u = rng.random()
        if n < 2 or u < .12 and n < 8:
            steps.append(['start', rng.randrange(len(sources))])
            n += 1
            continue
        k = rng.randrange(n)
        if u < .6:
            steps.append(['next', k, rng.choice([1, 1, 1, 2, 3, 5])])
        elif u < .66:
            steps.append(['drop', k, rng.choice(['close', 'forget', 'throw'])])
        elif u < .72:
            steps.append(['break', k, rng.choice(['interrupt', 'memory']), round(rng.random(), 6), round(rng.random(), 6)])
        elif u < .8:
            c, at = eater(rng)
            steps.append(['feed', c, at, [rng.choice([['next', rng.randrange(n), 1], ['ask', C.helper_call(rng, rng.choice(EATERS + [(_, 0) for _ in GENS])[0])],
                                                      ['start', rng.randrange(len(sources))]]) for _ in range(rng.randrange(3))]])
            n += sum(s[0] == 'start' for s in steps[-1][3])
        elif u < .86:
            steps.append(['pass', k, rng.choice(DIGITS)])
        elif u < .9:
            ks = rng.sample(range(n), min(n, rng.choice([2, 2, 3])))
            if len(ks) > 1:
                steps.append(['threads', ks, draw_schedule(rng, len(ks))])
        elif u < .95:
            steps.append(['ask', C.helper_call(rng, rng.choice(GENS))])
        else:
            steps.append(['ask', d.question(0, False, focus)])
    return {'makes': d.makes, 'sources': sources, 'steps': steps}


class World:
    def __init__(self, plan):
        self.slots = []
        for e in plan['makes']:
            try:
                self.slots.append(E.ev(e, self.slots))
            except Exception as ex:
                self.slots.append(ex)
        self.sources = plan['sources']
        self.open = []          # [source, generator or None, texts, values, finished]
        self.claims = {}
        self.faults, self.probes = {}, {}
        self.sigs = set()
        self.steps = 0
        self.viol = None
        self.overlap = False

    def count(self, d, name, k=1):
        d[name] = d.get(name, 0) + k

    def claim(self, recipe, text, what):
        key = json.dumps(recipe) + '\0' + text
        self.claims.setdefault(key, [recipe, text, what])

    def advance(self, k, n):
        g = self.open[k]
        if g[1] is None or g[4]:
            return
        for _ in range(n):
            try:
                x = next(g[1])
            except StopIteration:
                g[4] = True
                return
            except Exception as ex:
                g[2].append('raised ' + type(ex).__name__)
                g[4] = True
                return
            g[2].append(canon(x))
            g[3].append(x)

    def start(self, s):
        self.open.append([s, E.ev(self.sources[s], self.slots), [], [], False])

    def step(self, s):
        self.steps += 1
        op = s[0]
        if op == 'start':
            self.start(s[1])
        elif op == 'ask':
            text, _ = answer(s[1], self.slots)
            self.claim(E.resolve(s[1], self.recipes), cut(text), E.show(s[1]))
        elif op == 'feed':
            self.feed(s)
        elif op == 'threads':
            self.threads(s)
        elif s[1] < len(self.open):
            k = s[1]
            g = self.open[k]
            if op == 'next':
                self.advance(k, s[2])
            elif g[1] is None or g[4]:
                return
            elif op == 'drop':
                self.count(self.faults, 'abandoned')
                gen, g[1] = g[1], None
                if s[2] == 'close' and hasattr(gen, 'close'):
                    gen.close()
                elif s[2] == 'throw' and hasattr(gen, 'throw'):
                    try:
                        gen.throw(ValueError('caller'))
                    except (ValueError, StopIteration):
                        pass
                del gen
            elif op == 'break':
                # how many events lie ahead is found out in a fork, where the generator itself may be advanced
                sv = T.forked_survey(lambda: [_ for _ in g[1]])
                if sv:
                    n = T.pick_event(['site', s[3], s[4]], sv[0], sv[1])
                    if n is not None:
                        got = []
                        where, _ = T.with_fault(lambda: self.drain(g[1], got), s[2], n)
                        g[2] += got
                        g[1] = None
                        if where:
                            self.count(self.faults, s[2])
                        else:
                            g[4] = True
            elif op == 'pass':
                gen, g[1] = g[1], None
                name = s[2]
                try:
                    rest = []
                    text = canon(E.lookup(name)(self.spy(gen, rest, g)))
                except Exception as ex:
                    text = 'raised ' + type(ex).__name__
                else:
                    try:
                        want = canon(E.lookup(name)(list(rest)))
                    except Exception as ex:
                        want = 'raised ' + type(ex).__name__
                    if text != want and not self.viol:
                        self.viol = '%s of a running generator gives %s, of its list %s' % (name, cut(text, 300), cut(want, 300))
                    self.count(self.probes, 'generator passed on')

    def drain(self, gen, got):
        for x in gen:
            got.append(canon(x))

    def spy(self, gen, rest, g):
        for x in gen:
            rest.append(x)
            g[2].append(canon(x))
            g[3].append(x)
            yield x
        g[4] = True

    def feed(self, s):
        call, at, between = s[1], s[2], list(s[3])
        args = [E.ev(a, self.slots) for a in call[2]]
        items = list(args[at])
        todo = list(between)

        def given():
            for x in items:
                yield x
                if todo:
                    self.step(todo.pop(0))
        args[at] = given()
        kw = {a: E.ev(b, self.slots) for a, b in call[3].items()} if len(call) > 3 else {}
        try:
            text = canon(E.lookup(call[1])(*args, **kw))
        except Exception as ex:
            text = 'raised ' + type(ex).__name__
        while todo:
            self.step(todo.pop(0))
        self.claim(call, cut(text), '%s, list given as a generator' % E.show(call))
        self.count(self.probes, 'input given as a generator')

    def threads(self, s):
        ks = [k for k in s[1] if k < len(self.open) and self.open[k][1] is not None and not self.open[k][4]]
        if len(ks) < 2:
            return
        sched = T.Sched([lambda k=k: self.advance(k, BIG) or [] for k in ks], [x for x in s[2] if x[0] < len(ks)]).run()
        self.steps += sched.events
        self.count(self.faults, 'preemption', len(sched.switches))
        for t, k in enumerate(ks):
            if sched.errors[t] is not None and not self.viol:
                self.viol = 'thread with generator %d failed: %r' % (k, sched.errors[t])
        if sched.deadlock and not self.viol:
            self.viol = 'threads wait for each other for ever'

    def look(self):
        half = [(g[0], len(g[2])) for g in self.open if g[1] is not None and not g[4] and g[2]]
        if len(half) > 1:
            self.overlap = True
            self.sigs.add(digest(str(sorted((json.dumps(self.sources[a]), b) for a, b in half))))

    def finish(self):
        for k, g in enumerate(self.open):
            self.advance(k, BIG)
        for k, g in enumerate(self.open):
            src = self.sources[g[0]]
            what = 'generator %d: %s' % (k, E.show(src))
            if [canon(_) for _ in g[3]] != [t for t in g[2] if not t.startswith('raised')][:len(g[3])] and not self.viol:
                self.viol = '%s: values handed out have changed' % what
            if g[4]:
                text = '[' + ','.join(g[2]) + ']'
                if g[2] and g[2][-1].startswith('raised'):
                    text = g[2][-1]
                self.claim(src, cut(text), what)
            elif g[2]:
                self.claim(['op', 'prefix', src, len(g[2])], cut('[' + ','.join(g[2]) + ']'), what + ', first values')


def execute(plan):
    w = World(plan)
    w.recipes = []
    for e in plan['makes']:
        w.recipes.append(E.resolve(e, w.recipes))
    for s in plan['steps']:
        w.step(s)
        w.look()
        if w.viol:
            break
    if not w.viol:
        w.finish()
    return {'viol': w.viol, 'claims': list(w.claims.values()), 'faults': w.faults, 'probes': w.probes,
            'counts': {'generators': len(w.open), 'generators consumed to the end': sum(bool(g[4]) for g in w.open)},
            'steps': w.steps, 'sigs': sorted(w.sigs), 'sig': digest(json.dumps(plan)), 'trivial': not w.overlap}


def shrink(plan):
    # starts stay, so that the numbers of the generators keep their meaning
    steps = plan['steps']
    for c in shrink_list([i for i, s in enumerate(steps) if s[0] != 'start']):
        yield dict(plan, steps=[s for i, s in enumerate(steps) if i in set(c) or s[0] == 'start'])
    used = {s[1] for s in steps if s[0] in ('next', 'drop', 'break', 'pass')} | {k for s in steps if s[0] == 'threads' for k in s[1]}
    n = sum(s[0] == 'start' for s in steps)
    if n and n - 1 not in used and not any(s[0] == 'feed' for s in steps):
        last = max(i for i, s in enumerate(steps) if s[0] == 'start')
        yield dict(plan, steps=steps[:last] + steps[last + 1:])


def show(s):
    if s[0] == 'ask':
        return E.show(s[1])
    if s[0] == 'feed':
        return '%s with argument %d as a generator%s' % (E.show(s[1]), s[2], ''.join('; meanwhile ' + show(_) for _ in s[3]))
    return ' '.join(map(str, s))


def describe(plan):
    out = ['x%d = %s' % (i, E.show(e)) for i, e in enumerate(plan['makes'])]
    out += ['source %d: %s' % (i, E.show(e)) for i, e in enumerate(plan['sources'])]
    return '\n'.join(out + [show(s) for s in plan['steps']])
