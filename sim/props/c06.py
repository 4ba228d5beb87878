"""C06: answers do not depend on what was asked or computed before"""
import json

from .. import catalog as C
from .. import expr as E
from .. import pool as P
from ..core import answer, cut, digest, shrink_list

ID = 'C06'
LEVEL = 'exploration'
TECHNIQUE = 'seeded histories of questions over shared and derived objects, each answer compared with a fresh process'
NOTE = ('Seeded search over orders of questions; the oracle is the same library on a fresh object in a fresh process, so errors '
        'that are there from the first question on are outside (C16 to C18 have models).')
RUNS = {'quick': 3000, 'thorough': 30000}
RULE = ('a run is a pool of 2 to 12 objects (literals and objects derived from each other, also while the history goes on) and '
        '15 to 60 questions to them in random order with repetition, drawn from a small set of related questions; non-trivial: '
        'at least 5 answers that are not exceptions; distinct by the sequence of calls')
TIME_UNIT = 'calls in histories'
MEASURE = 'distinct (object value, question, number of earlier questions to the object capped at 3) triples'
COMPONENTS = {'real': ['discretehelpers from the working tree, numpy, sympy, networkx, bidict'], 'stub': [],
              'model': ['a fresh process as reference']}
ASSUMPTIONS = ['the caller does not change containers handed out by a question']


def make(rng, i, tier):
    uni = P.universe(rng.seed_no, i // 400)
    d = P.Drawer(rng, uni)
    mixed = rng.random() < .25
    kind = P.pick_kind(rng)
    steps = []
    for _ in range(rng.randrange(1, 4)):
        d.literal(P.pick_kind(rng) if mixed else kind)
        steps.append(['make', d.makes[-1]])
    if rng.random() < .35:      # the same value twice: two objects built alike
        k = rng.randrange(len(d.makes))
        d.add(d.makes[k], d.kinds[k])
        steps.append(['make', d.makes[-1]])
    focus = P.focus_names(rng, rng.choice([3, 6, 10, 20]))
    company = kind == 'Boolf' and rng.random() < .2     # a larger pool, whose objects are combined with each other
    if company:
        for _ in range(rng.randrange(3, 7)):
            v = rng.choice([1, 2, 2, 3])
            d.add(['new', kind, [''.join(rng.choice('01') for _ in range(1 << v)), E.L(C.atoms(rng, v, 6))]], kind)
            steps.append(['make', d.makes[-1]])
    if rng.random() < .25:      # one question that takes arguments, with many different ones
        focus = [rng.choice(sorted(C.BOOLF_CALLS))]
    heavy = rng.random() < .03
    helpers = rng.choice([0, 0, .1, .5, 1, 1])
    few = rng.sample(sorted(C.HELPERS), 4) if helpers == 1 else None
    for _ in range(rng.randrange(15, 61)):
        if rng.random() < .1 and len(d.makes) < 8:
            d.derived()
            steps.append(['make', d.makes[-1]])
        elif rng.random() < helpers:
            said = [s[1] for s in steps if s[0] == 'ask' and s[1][0] == 'fn']
            e = C.vary(rng, rng.choice(said)) if said and rng.random() < .5 else C.helper_call(rng, few and rng.choice(few))
            steps.append(['ask', e])
        elif rng.random() < .04:    # almost the same object again
            k = rng.randrange(len(d.makes))
            d.add(C.vary(rng, d.makes[k]), d.kinds[k])
            steps.append(['make', d.makes[-1]])
        else:
            k = rng.randrange(len(d.makes))
            if company and d.kinds[k] == 'Boolf' and rng.random() < .7:
                q = ['op', rng.choice(['&', '|', '^', '<', '<=', '>', '>=', '==', '!=']), ['ref', k], d.other(k)]
                if rng.random() < .2:
                    q = ['call', ['ref', k], rng.choice(['bitwise_lt', 'bitwise_le', 'bitwise_gt', 'bitwise_ge']), [d.other(k)]]
            else:
                q = d.question(k, heavy, focus)
            said = [s[1] for s in steps if s[0] == 'ask' and s[1][0] == 'call' and s[1][1] == ['ref', k]]
            if said and rng.random() < .1:      # almost the same question to the same object
                q = C.vary(rng, rng.choice(said))
            steps.append(['ask', C.vary(rng, q) if q[0] == 'call' and rng.random() < .15 else q])
            if rng.random() < .25:
                steps.append(steps[-1])
    asks = [s for s in steps if s[0] == 'ask']
    for s in rng.sample(asks, min(len(asks), 4)):
        steps.append(s)
    return {'steps': steps}


def execute(plan):
    slots, recipes, claims = [], [], []
    seen = {}
    times = {}
    sigs = []
    good = 0
    counts = {'answers': 0, 'answers that are exceptions': 0}
    probes = {}
    viol = None
    for s in plan['steps']:
        if s[0] == 'make':
            try:
                slots.append(E.ev(s[1], slots))
            except Exception as ex:
                slots.append(ex)
            recipes.append(E.resolve(s[1], recipes))
            continue
        e = s[1]
        used = E.refs(e)
        if any(r >= len(slots) or isinstance(slots[r], Exception) for r in used):
            continue
        text, val = answer(e, slots)
        text = cut(text)
        recipe = E.resolve(e, recipes)
        key = json.dumps(recipe)
        counts['answers'] += 1
        if text.startswith('raised'):
            counts['answers that are exceptions'] += 1
        else:
            good += 1
        n = times.get(tuple(used[:1]), 0)
        times[tuple(used[:1])] = n + 1
        sigs.append(digest(key, str(min(n, 3))))
        if key in seen:
            probes['same question asked again'] = probes.get('same question asked again', 0) + 1
            if seen[key] != text:
                viol = '%s: first answer %s, later answer %s' % (E.show(e), cut(seen[key], 300), cut(text, 300))
                break
        else:
            seen[key] = text
            claims.append([recipe, text, E.show(e)])
    return {'viol': viol, 'claims': claims, 'counts': counts, 'probes': probes, 'steps': len(plan['steps']),
            'sigs': sorted(set(sigs)), 'sig': digest(json.dumps(plan['steps'])), 'trivial': good < 5}


def shrink(plan):
    """leave out questions; leave out objects nobody refers to"""
    steps = plan['steps']
    for c in shrink_list([i for i, s in enumerate(steps) if s[0] == 'ask']):
        keep = set(c) | {i for i, s in enumerate(steps) if s[0] == 'make'}
        yield {'steps': [s for i, s in enumerate(steps) if i in keep]}
    makes = [i for i, s in enumerate(steps) if s[0] == 'make']
    for slot, i in reversed(list(enumerate(makes))):
        if any(slot in E.refs(s[1]) for j, s in enumerate(steps) if j != i):
            continue
        yield {'steps': [[s[0], renumber(s[1], slot)] for j, s in enumerate(steps) if j != i]}


def renumber(e, gone):
    if isinstance(e, list):
        if e and e[0] == 'ref':
            return ['ref', e[1] - (e[1] > gone)]
        return [renumber(_, gone) for _ in e]
    if isinstance(e, dict):
        return {k: renumber(v, gone) for k, v in e.items()}
    return e


def describe(plan):
    out, n = [], 0
    for s in plan['steps']:
        if s[0] == 'make':
            out.append('x%d = %s' % (n, E.show(s[1])))
            n += 1
        else:
            out.append(E.show(s[1]))
    return '\n'.join(out)
