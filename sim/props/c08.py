"""C08: an interrupted question does not spoil later answers"""
import contextlib
import io
import json

from .. import catalog as C
from .. import expr as E
from .. import pool as P
from .. import trace as T
from ..core import answer, cut, digest, shrink_list

ID = 'C08'
LEVEL = 'fault_enumeration'
TECHNIQUE = 'exceptions raised at chosen source lines or instructions inside the library, answers afterwards compared with a ' \
            'fresh process'
NOTE = ('Faults at sampled instants of sampled questions (all instants for some short questions); the oracle is the same '
        'library in a fresh process without faults. Changes to set partitions are not claimed to be atomic.')
RUNS = {'quick': 1100, 'thorough': 20000}
RULE = ('a run is a series of episodes: build 1 to 3 objects, ask some questions, then cut one question or operation off at a '
        'chosen instant, then ask it again together with related and unrelated questions; instants: first or last visit of each '
        'source line reached (file first, then line), or shortly after an attribute was set, or uniform over all events, or over instructions, or all instants of a '
        'short question; non-trivial: a fault fired; distinct by (call, fault kind, place)')
TIME_UNIT = 'faults and calls in histories'
MEASURE = 'distinct (question, fault kind, place in the source where it fired)'
COMPONENTS = {'real': ['discretehelpers from the working tree, numpy, sympy, networkx, bidict'],
              'stub': ['standard output for the failing-output fault'], 'model': ['a fresh process as reference']}
ASSUMPTIONS = ['faults arrive inside the library, not inside numpy, sympy or the standard library',
               'the objects asked are not in the middle of being changed']

PRINTING = ['hypersplits_pretty', 'hypersplits_potential_cores_pretty']


def draw_fault(rng, printing):
    u = rng.random()
    if printing and u < .5:
        return {'kind': 'output', 'k': rng.randrange(0, 6)}
    if u < .08:
        return {'kind': 'stack', 'u': round(rng.random(), 6)}
    kind = rng.choice(['interrupt', 'interrupt', 'memory', 'foreign'])
    u = rng.random()
    if u < .35:
        return {'kind': kind, 'sel': ['change', round(rng.random(), 6), round(rng.random(), 6)]}
    if u < .8:
        return {'kind': kind, 'sel': ['site', round(rng.random(), 6), round(rng.random(), 6)]}
    return {'kind': kind, 'sel': ['any', round(rng.random(), 6)]}


def make(rng, i, tier):
    uni = P.universe(rng.seed_no, i // 400)
    eps = []
    for _ in range(rng.choice([2, 3, 4])):
        d = P.Drawer(rng, uni)
        kind = P.pick_kind(rng)
        d.literal(kind)
        if rng.random() < .5:
            d.literal(kind)
        if rng.random() < .35:
            d.derived()
        focus = P.focus_names(rng, 6)
        x = rng.randrange(len(d.makes))
        target = d.question(x, False, focus)
        u = rng.random()
        if u < .1:
            rng.hint = d.hints[x] or 1
            target = P.derive(rng, kind, ['ref', x], d.other(x))
        elif u < .17 and kind == 'Boolf':
            target = ['call', ['ref', x], rng.choice(PRINTING), [None, True]]
        elif u < .23:
            target = rng.choice(uni[kind])
        elif u < .27:
            target = C.helper_call(rng)
        name = target[2] if target[0] in ('call', 'attr') and isinstance(target[2], str) and target[1] == ['ref', x] else None
        after = []
        if name and kind == 'Boolf':
            rel = [n for n in P.group_of(C.BOOLF_ATTRS, name) if n != name]
            after += [['attr', ['ref', x], n] for n in rng.sample(rel, min(len(rel), 4))]
        for _ in range(rng.randrange(2, 7)):
            after.append(d.question(rng.randrange(len(d.makes)), False, focus if rng.random() < .5 else None))
        printing = name in PRINTING
        mode = rng.choice(['single'] * 6 + ['series', 'all'])
        faults = [draw_fault(rng, printing) for _ in range(rng.choice([4, 8, 12]))]
        if mode == 'all':
            faults = [{'kind': rng.choice(['interrupt', 'memory']), 'sel': ['every']}]
        eps.append({'makes': d.makes, 'warm': [d.question(rng.randrange(len(d.makes)), False, focus)
                                               for _ in range(rng.choice([0, 0, 1, 3]))],
                    'target': target, 'faults': faults, 'after': after, 'mode': mode, 'opcodes': rng.random() < .12})
    return {'episodes': eps}


def build(ep):
    slots, recipes = [], []
    for e in ep['makes']:
        try:
            slots.append(E.ev(e, slots))
        except Exception as ex:
            slots.append(ex)
        recipes.append(E.resolve(e, recipes))
    return slots, recipes


def alive(e, slots):
    return not any(isinstance(slots[r], Exception) for r in E.refs(e))


def warm_up(ep, slots):
    for e in ep['warm']:
        if alive(e, slots):
            answer(e, slots)


def ask_silently(e, slots):
    with contextlib.redirect_stdout(io.StringIO()):
        E.ev(e, slots)


MAX_EVERY = 160


def episode(ep, out, claims):
    slots, recipes = build(ep)
    if not alive(ep['target'], slots):
        return

    def whole():
        s, _ = build(ep)
        warm_up(ep, s)
        return T.survey(lambda: ask_silently(ep['target'], s), ep['opcodes'], s)
    from ..core import isolated
    kind, sv = isolated(whole, timeout=40.0)
    if kind != 'ok':
        return
    n, places, deep, changes = sv
    faults = []
    for f in ep['faults']:
        if f.get('sel') == ['every']:
            step = max(1, -(-n // MAX_EVERY))
            faults += [dict(f, sel=['at', k]) for k in range(0, n, step)]
            if step == 1 and n:
                out['probes']['every instant of a question'] = out['probes'].get('every instant of a question', 0) + 1
        else:
            faults.append(f)
    slots = None
    tname = E.show(ep['target'])
    for f in faults:
        out['steps'] += 1
        if slots is None or ep['mode'] != 'series':
            slots, recipes = build(ep)
            warm_up(ep, slots)
        where = None
        if f['kind'] == 'output':
            o = T.FailingOut(f['k'])
            try:
                with contextlib.redirect_stdout(o):
                    E.ev(ep['target'], slots)
            except Exception:
                pass
            where = 'write %d' % f['k'] if o.fired else None
        elif f['kind'] == 'stack':
            where, _ = T.with_short_stack(lambda: ask_silently(ep['target'], slots), 1 + int(f['u'] * max(1, deep)))
        else:
            k = T.pick_event(f['sel'], n, places, changes)
            if k is None:
                continue
            where, ex = T.with_fault(lambda: ask_silently(ep['target'], slots), f['kind'], k, ep['opcodes'])
            if where and ex is None:
                out['probes']['fault swallowed by the library'] = out['probes'].get('fault swallowed by the library', 0) + 1
        if where:
            out['faults'][f['kind']] = out['faults'].get(f['kind'], 0) + 1
            out['sigs'].add(digest(tname, f['kind'], where))
        if ep['mode'] == 'series' and f is not faults[-1]:
            continue
        for e in [ep['target']] + ep['after']:
            if not alive(e, slots):
                continue
            out['steps'] += 1
            text = cut(answer(e, slots)[0])
            recipe = E.resolve(e, recipes)
            key = json.dumps(recipe) + '\0' + text
            if key not in claims:
                claims[key] = [recipe, text, '%s after %s was cut off by %s at %s' % (E.show(e), tname, f['kind'], where)]


def execute(plan):
    out = {'viol': None, 'faults': {}, 'probes': {}, 'counts': {}, 'steps': 0, 'sigs': set()}
    claims = {}
    for ep in plan['episodes']:
        episode(ep, out, claims)
    out['claims'] = [claims[k] for k in claims]
    out['sigs'] = sorted(out['sigs'])
    out['sig'] = digest(*out['sigs'])
    out['trivial'] = not out['sigs']
    return out


def shrink(plan):
    eps = plan['episodes']
    if len(eps) > 1:
        for ep in eps:
            yield {'episodes': [ep]}
        for c in shrink_list(eps):
            yield {'episodes': c}
    for i, ep in enumerate(eps):
        for key in ('faults', 'after', 'warm'):
            for c in shrink_list(ep[key]):
                if key == 'faults' and not c:
                    continue
                yield {'episodes': eps[:i] + [dict(ep, **{key: c})] + eps[i + 1:]}
        if ep['opcodes']:
            yield {'episodes': eps[:i] + [dict(ep, opcodes=False)] + eps[i + 1:]}


def describe(plan):
    out = []
    for ep in plan['episodes']:
        out += ['x%d = %s' % (i, E.show(e)) for i, e in enumerate(ep['makes'])]
        out += [E.show(e) for e in ep['warm']]
        out.append('cut off (%s%s): %s' % (ep['mode'], ', instructions' if ep['opcodes'] else '', E.show(ep['target'])))
        out += ['  fault %s' % json.dumps(f) for f in ep['faults']]
        out += [E.show(e) for e in ep['after']]
    return '\n'.join(out)
