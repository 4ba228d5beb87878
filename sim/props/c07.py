"""C07: threads sharing objects get the single-threaded answers"""
import io
import json
import sys

from .. import catalog as C
from .. import expr as E
from .. import pool as P
from .. import trace as T
from ..canon import canon
from ..core import cut, digest, isolated, shrink_list

ID = 'C07'
LEVEL = 'exploration'
TECHNIQUE = 'real threads parked and released one at a time at chosen source lines or instructions inside the library'
NOTE = ('Sampled interleavings of sampled questions: preemptions at first and last visits of source lines, random multi-switch '
        'schedules, all single preemptions of some short questions; every question and helper takes its turn in two threads. Control changes only inside the library, between lines or '
        'between bytecode instructions. Two threads changing the same set partition are not claimed.')
RUNS = {'quick': 1600, 'thorough': 16000}
RULE = ('a run is a series of episodes: two threads with the same question to two objects and each single preemption, or 1 to 3 shared objects, 2 to 4 threads with 1 to 3 calls each (questions to the shared '
        'objects, or objects of their own built and changed), executed under many schedules on fresh objects; non-trivial: '
        'control was taken away from a thread inside the library; distinct by the places of the switches')
TIME_UNIT = 'events (lines or instructions of the library) executed under the scheduler'
MEASURE = 'distinct sequences of (thread, place in the source where control was taken away) per set of calls'
COMPONENTS = {'real': ['discretehelpers from the working tree, numpy, sympy, networkx, bidict, CPython threads'],
              'stub': ['threading.Lock and RLock as seen by the library, so that waiting is a scheduling decision'],
              'model': ['a fresh process as reference']}
ASSUMPTIONS = ['switches inside numpy, sympy or the standard library are not explored']
BIG = 1 << 50
BUDGET = 300000     # events per episode; long questions get fewer schedules


def own_life(rng):
    """an object of the thread's own, changed and asked"""
    if rng.random() < .6:
        els = list(range(7))
        calls = []
        label = rng.choice('abc')           # only one, as a contradiction would be printed
        for _ in range(rng.randrange(2, 7)):
            a, b = rng.sample(els, 2)
            calls.append(rng.choice([['merge_pair', [a, b]], ['merge_many', [E.L(rng.sample(els, 3))]],
                                     ['add_label_to_element', [a, label]]]))
        return ['life', C.setpart_literal(rng, False), calls, rng.choice(['blocks', 'pairs', 'canonical_blocks_with_singletons'])]
    calls = []
    for _ in range(rng.randrange(2, 7)):
        a, b = rng.sample(range(6), 2)
        calls.append([rng.choice(['set_equal', 'set_comp']), [a, b]])
    return ['life', ['new', 'SetPartComp', []], calls, rng.choice(['related_part', 'all_complement_pairs', 'comp_pairs', 'boolf'])]


def silent(e):
    text = json.dumps(e)
    return not any(_ in text for _ in ('pretty', 'boolfs_to_swan', 'ec_clan_matrix_wiki'))


def u(rng):
    return round(rng.random(), 6)


def draw_schedule(rng, nt):
    k = rng.random()
    if k < .6:
        a, b = rng.sample(range(nt), 2)
        sel = ['site', u(rng), u(rng)] if rng.random() < .8 else ['any', u(rng)]
        more = [['preempt', b, ['site', u(rng), u(rng)]]] if rng.random() < .4 else []
        return {'kind': 'preempt', 'first': a, 'sel': sel, 'then': b, 'more': more}
    return {'kind': 'mixed', 'segments': [[rng.randrange(nt), u(rng) ** 2] for _ in range(rng.randrange(2, 12))]}


NAMES = C.BOOLF_ATTRS + sorted(C.BOOLF_CALLS) + sorted(C.BOOLF_HEAVY_CALLS)


def twin_episode(rng, uni, turn):
    """two threads put the same question to two objects, or call the same helper with different arguments; the questions
    take turns"""
    d = P.Drawer(rng, uni)
    where = rng.random()
    helpers = sorted(C.HELPERS)
    if where < .35:
        name = helpers[turn % len(helpers)]
        qs = [C.helper_call(rng, name) for _ in range(2)]
    elif where < .42:
        from .c19 import relation, relation_question
        for _ in range(2):
            d.add(relation(rng), 'SetPartComp')
        q = relation_question(rng, ['ref', 0])
        qs = [q, swapped(q)]
    else:
        kind = 'Boolf' if where < .82 else rng.choice([k for k in C.KINDS if k != 'Boolf'])
        d.literal(kind)
        d.literal(kind)
        if kind == 'Boolf':
            name = NAMES[turn % len(NAMES)]
            qs = []
            for i in (0, 1):
                rng.hint = d.hints[i] or 1
                rng.names = C.names_of(d.recipes[i])
                args = C.BOOLF_CALLS.get(name) or C.BOOLF_HEAVY_CALLS.get(name)
                if name in C.BOOLF_HEAVY_CALLS and d.hints[i] > 3:
                    continue
                qs.append(['call', ['ref', i], name, args(rng)] if args else ['attr', ['ref', i], name])
        else:
            q = d.question(0)
            qs = [q, swapped(q)]
    return {'makes': d.makes, 'warm': [], 'threads': [[q] if silent(q) else [] for q in qs], 'opcodes': rng.random() < .1,
            'schedules': ['each']}


def swapped(e):
    """the same question to the other object"""
    if isinstance(e, list):
        if e and e[0] == 'ref':
            return ['ref', 1 - e[1]]
        return [swapped(_) for _ in e]
    if isinstance(e, dict):
        return {k: swapped(v) for k, v in e.items()}
    return e


def make(rng, i, tier):
    uni = P.universe(rng.seed_no, i // 400)
    if i % 5 < 3:
        return {'episodes': [twin_episode(rng, uni, 7919 * (i * 2 + k)) for k in range(3)]}
    eps = []
    for _ in range(rng.choice([1, 2, 3])):
        d = P.Drawer(rng, uni)
        kind = P.pick_kind(rng)
        d.literal(kind)
        if rng.random() < .4:
            d.literal(kind)
        if rng.random() < .3:
            d.derived()
        names = P.focus_names(rng, 3)
        if rng.random() < .5:
            g = P.group_of(C.BOOLF_ATTRS, rng.choice(C.BOOLF_ATTRS))
            names = rng.sample(g, min(len(g), 4))
        nt = rng.choice([2, 2, 2, 3, 4])
        threads = []
        same = rng.random() < .4            # all threads ask the same thing
        shared = None
        for _ in range(nt):
            body = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                v = rng.random()
                if v < .08:
                    q = own_life(rng)
                elif v < .16:
                    q = ['attr', C.boolf_literal(rng), rng.choice(C.BOOLF_ATTRS)]
                else:
                    q = d.question(0 if rng.random() < .7 else rng.randrange(len(d.makes)), False, names)
                if silent(q):
                    body.append(q)
            if same and shared:
                body = shared if rng.random() < .7 else body
            shared = shared or body
            threads.append(body)
        mode = rng.choice(['some'] * 6 + ['every'])
        eps.append({'makes': d.makes,
                    'warm': [q for q in [d.question(0, False, names) for _ in range(rng.choice([0, 0, 0, 2]))] if silent(q)],
                    'threads': threads, 'opcodes': rng.random() < .15,
                    'schedules': ['every'] if mode == 'every' else [draw_schedule(rng, nt) for _ in range(rng.choice([5, 10, 20]))]})
    return {'episodes': eps}


def build(ep):
    slots, recipes = [], []
    for e in ep['makes']:
        try:
            slots.append(E.ev(e, slots))
        except Exception as ex:
            slots.append(ex)
        recipes.append(E.resolve(e, recipes))
    return slots, recipes


def alive(e, slots):
    return not any(isinstance(slots[r], Exception) for r in E.refs(e))


def one(e, slots):
    try:
        return canon(E.ev(e, slots))
    except Exception as ex:
        return 'raised ' + type(ex).__name__


def body_of(exprs, slots):
    return lambda: [one(e, slots) for e in exprs]


def survey_all(ep):
    """events of each thread's calls when run alone"""
    out = []
    for t in range(len(ep['threads'])):
        def alone(t=t):
            slots, _ = build(ep)
            for e in ep['warm']:
                if alive(e, slots):
                    one(e, slots)
            return T.survey_threaded(body_of([e for e in ep['threads'][t] if alive(e, slots)], slots), ep['opcodes'])
        kind, val = isolated(alone, timeout=40.0)
        out.append(val if kind == 'ok' else [0, [], 0])
    return out


MAX_EVERY = 120
MAX_EACH = 50


def concrete(sched, sv, nt):
    """schedules with numbers of events"""
    if sched == 'every':
        n = sv[0][0]
        step = max(1, -(-n // MAX_EVERY))
        return [[[0, k], [1, BIG], [0, BIG]] for k in range(1, n, step)]
    if sched == 'each':
        if nt < 2:
            return []
        ks = sorted({k for f in sv[0][1] for k in f} - {0})
        step = max(1, -(-len(ks) // MAX_EACH))
        return [[[0, k], [1, BIG], [0, BIG]] for k in ks[::step]]
    if sched['kind'] == 'list':
        return [sched['segments']]
    if sched['kind'] == 'preempt':
        a, b = sched['first'], sched['then']
        if a >= nt or b >= nt:
            return []
        k = T.pick_event(sched['sel'], sv[a][0], sv[a][1])
        if k is None:
            return []
        segs = [[a, k]]
        for _, t, sel in sched['more']:
            kb = T.pick_event(sel, sv[t][0], sv[t][1]) if t < nt else None
            if kb:
                segs += [[t, kb], [a, max(1, kb // 2)]]
        return [segs + [[b, BIG], [a, BIG]]]
    segs = [[t, max(1, int(f * sv[t][0] * .7))] for t, f in sched['segments'] if t < nt]
    return [segs]


def episode(ep, out, claims):
    slots, recipes = build(ep)
    nt = len(ep['threads'])
    if nt == 0:
        return None
    sv = survey_all(ep)
    names = digest(json.dumps(ep['threads']))
    left = BUDGET
    for sched in ep['schedules']:
        for segs in concrete(sched, sv, nt):
            if left < 0:
                return None
            left -= sum(x[0] for x in sv)
            slots, recipes = build(ep)
            for e in ep['warm']:
                if alive(e, slots):
                    one(e, slots)
            bodies = [[e for e in b if alive(e, slots)] for b in ep['threads']]
            if not any(bodies):
                return None
            s = T.Sched([body_of(b, slots) for b in bodies], segs, ep['opcodes']).run()
            out['steps'] += s.events
            out['counts']['schedules'] = out['counts'].get('schedules', 0) + 1
            trail = ' '.join('%d@%s' % sw for sw in s.switches)
            if s.deadlock:
                return 'threads wait for each other for ever: %s' % trail
            if s.stalled:
                out['probes']['parked thread held a real lock'] = out['probes'].get('parked thread held a real lock', 0) + 1
            if s.switches:
                out['sigs'].add(digest(names, trail))
                out['faults']['preemption'] = out['faults'].get('preemption', 0) + len(s.switches)
            for t in range(nt):
                if s.errors[t] is not None:
                    return 'thread %d failed with %r, switches %s' % (t, s.errors[t], trail)
                if s.results[t] is None:
                    return 'thread %d did not finish, switches %s' % (t, trail)
                for e, text in zip(bodies[t], s.results[t]):
                    note(claims, e, recipes, text, 'thread %d: %s, switches %s' % (t, E.show(e), trail[:300]))
            for t in range(nt):
                for e in bodies[t]:
                    note(claims, e, recipes, one(e, slots), 'afterwards: %s, switches %s' % (E.show(e), trail[:300]))
    return None


def note(claims, e, recipes, text, what):
    text = cut(text)
    recipe = E.resolve(e, recipes)
    key = json.dumps(recipe) + '\0' + text
    if key not in claims:
        claims[key] = [recipe, text, what]


def execute(plan):
    out = {'viol': None, 'faults': {}, 'probes': {}, 'counts': {}, 'steps': 0, 'sigs': set()}
    claims = {}
    keep = sys.stdout
    sys.stdout = io.StringIO()
    try:
        for ep in plan['episodes']:
            out['viol'] = episode(ep, out, claims)
            if out['viol']:
                break
    finally:
        sys.stdout = keep
    out['claims'] = [claims[k] for k in claims]
    out['sigs'] = sorted(out['sigs'])
    out['sig'] = digest(*out['sigs'])
    out['trivial'] = not out['sigs']
    return out


def shrink(plan):
    eps = plan['episodes']
    if len(eps) > 1:
        for ep in eps:
            yield {'episodes': [ep]}
    for i, ep in enumerate(eps):
        def put(**kw):
            return {'episodes': eps[:i] + [dict(ep, **kw)] + eps[i + 1:]}
        if len(ep['schedules']) > 1:
            for s in ep['schedules']:
                yield put(schedules=[s])
        if ep['schedules'] in (['every'], ['each']):
            sv = None
            try:
                kind, sv = isolated(survey_all, ep, timeout=60.0)
            except Exception:
                pass
            if sv:
                for segs in concrete(ep['schedules'][0], sv, len(ep['threads'])):
                    yield put(schedules=[{'kind': 'list', 'segments': segs}])
        for s, sched in enumerate(ep['schedules']):
            if isinstance(sched, dict) and 'segments' in sched:
                for c in shrink_list(sched['segments']):
                    yield put(schedules=ep['schedules'][:s] + [dict(sched, segments=c)] + ep['schedules'][s + 1:])
        for t, body in enumerate(ep['threads']):
            if len(body) > 1:
                for c in shrink_list(body):
                    yield put(threads=ep['threads'][:t] + [c] + ep['threads'][t + 1:])
        if len(ep['threads']) > 2:
            yield put(threads=ep['threads'][:-1])
        for c in shrink_list(ep['warm']):
            yield put(warm=c)
        if ep['opcodes']:
            yield put(opcodes=False)


def describe(plan):
    out = []
    for ep in plan['episodes']:
        out += ['x%d = %s' % (i, E.show(e)) for i, e in enumerate(ep['makes'])]
        out += [E.show(e) for e in ep['warm']]
        for t, b in enumerate(ep['threads']):
            out.append('thread %d: %s' % (t, '; '.join(E.show(e) for e in b)))
        out.append('switches between %s' % ('instructions' if ep['opcodes'] else 'lines'))
        out += ['  schedule %s' % json.dumps(s) for s in ep['schedules']]
    return '\n'.join(out)
