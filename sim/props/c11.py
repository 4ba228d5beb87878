"""C11: the same calls give the same results in every process"""
import json

from .. import canon
from .. import catalog as C
from .. import core
from .. import expr as E
from .. import pool as P
from ..core import answer, cut, digest
from . import c06

ID = 'C11'
LEVEL = 'exploration'
TECHNIQUE = 'the same seeded script in interpreters with different hash seeds, transcripts compared line by line'
NOTE = ('Hash seeds and scripts are sampled. The order inside a set is not part of the answer; the order of lists, tuples, '
        'dictionaries, graphs and printed text is.')
RUNS = {'quick': 1000, 'thorough': 10000}
RULE = ('a run is a script of 8 to 30 calls (objects, questions, helper functions, set partitions over words, enumerations of '
        'equivalence classes, the same question to several functions, where every question takes its turn) executed in three interpreters with different hash seeds; non-trivial: at least 5 answers that '
        'are not exceptions; distinct by the script')
TIME_UNIT = 'calls in scripts, counted once per interpreter'
MEASURE = 'distinct (call, hash seed) pairs'
COMPONENTS = {'real': ['discretehelpers from the working tree, numpy, sympy, networkx, bidict; several Python interpreters'],
              'stub': [], 'model': []}
ASSUMPTIONS = ['the interpreters run the same Python version on the same machine']

WORDS = ['ape', 'bee', 'cat', 'dog', 'eel', 'fox', 'gnu', 'hen', 'ibis', 'jay']
NAMES = sorted(C.BOOLF_ATTRS + list(C.BOOLF_CALLS))
SEEDS = 4       # further interpreters for each worker


def words_part(rng):
    els = rng.sample(WORDS, rng.randrange(2, 9))
    blocks = []
    while els:
        k = rng.randrange(1, 5)
        blocks.append(E.L(els[:k]))
        els = els[k:]
    return ['new', 'SetPart', [E.L(blocks)], {'domain': rng.choice([E.L, E.S, E.T])(rng.sample(WORDS, len(WORDS)))}]


def words_question(rng, x, other):
    u = rng.random()
    w = rng.choice
    if u < .3:
        return ['attr', x, w(['blocks', 'pairs', 'singletons', 'canonical_blocks_with_singletons', 'non_singletons', 'domain'])]
    if u < .4:
        return ['op', 'str', x]
    if u < .75:
        return ['call', x, w(['meet', 'join', '_join_prototype', '_join_prototype_improved'][:rng.choice([2, 2, 4])]), [other]]
    if u < .85:
        return ['call', x, 'blocks_with_singletons', w([[], [E.L(WORDS)], [E.S(WORDS)]])]
    return w([['call', x, 'element_to_block', [w(WORDS)]], ['op', w(['<=', '<', '==']), x, other],
              ['call', x, 'get_label_from_element', [w(WORDS)]], ['call', x, 'get_block_from_label', [w('PQR')]]])


def words_change(rng, x, i):
    w = rng.choice
    return w([['after', x, 'merge_pair', [w(WORDS), w(WORDS)]],
              ['after', x, 'merge_many', [w([E.L, E.S])(rng.sample(WORDS, 3))]],
              ['after', x, 'add_label_to_element', [w('PQR'), w(WORDS)]],
              ['after', x, 'refine_block', [rng.randrange(2), E.L([E.L(['ape']), E.L(['bee'])])]]])


def make(rng, i, tier):
    uni = P.universe(rng.seed_no, i // 400)
    d = P.Drawer(rng, uni)
    steps = []
    mode = rng.choice(['turn'] * 5 + ['objects'] * 4 + ['words', 'helpers', 'classes'])
    if mode == 'words':
        for _ in range(rng.randrange(2, 4)):
            d.add(words_part(rng), 'SetPart')
            steps.append(['make', d.makes[-1]])
        for _ in range(rng.randrange(8, 25)):
            k = rng.randrange(len(d.makes))
            if rng.random() < .2:
                steps.append(['make', words_change(rng, ['ref', k], k)])
                d.add(steps[-1][1], 'SetPart')
            else:
                steps.append(['ask', words_question(rng, ['ref', k], d.other(k))])
    elif mode == 'turn':
        n = NAMES[i * 7 % len(NAMES)]
        for k in range(rng.randrange(6, 11)):
            steps.append(['make', C.boolf_literal(rng) if k % 2 else
                          ['new', 'Boolf', [E.L(C.tt_bits(rng, 4)), E.L(C.atoms(rng, 4))]]])
            d.add(steps[-1][1], 'Boolf')
            steps.append(['ask', d.question(k, focus=[n])])
            if rng.random() < .2:
                steps.append(['ask', d.question(k)])
    elif mode == 'classes':
        e = C.boolf_literal(rng, 3)
        d.add(e, 'Boolf')
        steps.append(['make', e])
        rng.hint = d.hints[0] or 1
        calls = dict(C.BOOLF_HEAVY_CALLS)
        for n in ('ec_family', 'ec_family_splinters', 'ec_faction', 'walsh_distances', 'hasse_matrix_coordinates',
                  'find_segments'):
            calls[n] = C.BOOLF_CALLS[n]
        for n in rng.sample(sorted(calls), 4):
            steps.append(['ask', ['call', ['ref', 0], n, calls[n](rng)]])
        for n in ('clan_minrep', 'family_minrep', 'faction_minrep', '_clan_minrep_prototype'):
            if rng.random() < .5:
                steps.append(['ask', ['attr', ['ref', 0], n]])
    else:
        kind = P.pick_kind(rng)
        for _ in range(rng.randrange(1, 4)):
            d.literal(kind)
            steps.append(['make', d.makes[-1]])
        for _ in range(rng.randrange(8, 30)):
            if mode == 'helpers' and rng.random() < .8:
                steps.append(['ask', C.helper_call(rng)])
            elif rng.random() < .12 and len(d.makes) < 7:
                d.derived()
                steps.append(['make', d.makes[-1]])
            else:
                steps.append(['ask', d.question(rng.randrange(len(d.makes)))])
    return {'steps': steps, 'others': sorted(rng.sample(range(SEEDS), 2)), 'seed': rng.seed_no}


def execute(plan):
    canon.ORDERED = True
    slots, out = [], []
    for s in plan['steps']:
        if s[0] == 'make':
            try:
                slots.append(E.ev(s[1], slots))
                out.append(answer(['op', 'str', ['ref', len(slots) - 1]], slots)[0])
            except Exception as ex:
                slots.append(ex)
                out.append('raised ' + type(ex).__name__)
            continue
        if any(r >= len(slots) or isinstance(slots[r], Exception) for r in E.refs(s[1])):
            out.append('-')
            continue
        out.append(cut(answer(s[1], slots)[0]))
    return out


_servers = {}


def hash_seed(seed, k):
    return str(int(digest('%s/hash seed/%s' % (seed, k)), 16) % 4294967295 + 1)


def server(seed, k):
    from ..server import Server
    import os
    key = (os.getpid(), seed, k)
    if key not in _servers:
        _servers[key] = Server(ID, {'PYTHONHASHSEED': hash_seed(seed, k)})
    return _servers[key]


def judge(plan, timeout):
    others = [server(plan['seed'], k) for k in plan['others']]
    for s in others:
        s.send(plan, timeout)
    kind, base = core.isolated(execute, plan, timeout=timeout)
    rest = [s.receive() for s in others]
    res = {'steps': len(plan['steps']) * (1 + len(others)), 'sig': digest(json.dumps(plan['steps'])), 'counts': {}, 'probes': {},
           'sigs': [], 'trivial': True, 'faults': {'interpreter with another hash seed': len(others)}}
    for k, _ in rest:
        if k == 'error':
            raise core.HarnessError(_)
    if kind != 'ok':
        if all(k == kind for k, _ in rest):
            return None, res        # the same everywhere; the other properties judge that
        return 'the script %ss in one interpreter and not in another' % kind, res
    for (k, t), o in zip(rest, plan['others']):
        if k != 'ok':
            return 'the script %ss with hash seed %s only' % (k, hash_seed(plan['seed'], o)), res
        for i, (x, y) in enumerate(zip(base, t)):
            if x != y:
                return 'step %d, %s: %s with hash seed 0, %s with hash seed %s' % (
                    i + 1, E.show(plan['steps'][i][1]), core.cut(x, 300), core.cut(y, 300), hash_seed(plan['seed'], o)), res
    good = [x for x in base if x != '-' and not x.startswith('raised')]
    res['trivial'] = len(good) < 5
    res['counts'] = {'answers compared': len(base) * len(others), 'answers that are exceptions': len(base) - len(good)}
    res['sigs'] = sorted({digest(json.dumps(s), str(o)) for s in plan['steps'] for o in plan['others']})
    return None, res


def shrink(plan):
    if len(plan['others']) > 1:
        for o in plan['others']:
            yield dict(plan, others=[o])
    for p in c06.shrink({'steps': plan['steps']}):
        yield dict(plan, steps=p['steps'])


def describe(plan):
    return 'hash seeds 0 and %s\n' % ', '.join(hash_seed(plan['seed'], o) for o in plan['others']) + c06.describe(plan)
