"""C03: a refused change leaves no trace"""
from .. import partworld as W
from .. import compworld as C

ID = 'C03'
LEVEL = 'exploration'
TECHNIQUE = 'refusals injected into seeded histories, full audit after each'
NOTE = 'Seeded search over histories with refused calls as the fault; trusts the reference models.'
RUNS = {'quick': 2500, 'thorough': 30000}
RULE = ('a run is 6 histories on a labelled partition and 6 on an equality-and-complement relation, 4 to 30 calls each, about '
        'every fourth call drawn to be refused, all questions asked right after each refusal and at the end; non-trivial: a '
        'change was accepted; distinct by the set of states reached')
TIME_UNIT = 'calls in histories'
MEASURE = 'distinct states (blocks, labels, complement pairs) reached'
COMPONENTS = {'real': ['discretehelpers.set_part and set_part_comp from the working tree'], 'stub': [],
              'model': ['PartModel and ParityModel in sim/models.py']}
ASSUMPTIONS = ['the fault is the refusal raised by the library itself']
WEIGHTS = {'merge': 4, 'many': 4, 'refine': 4, 'label_el': 4, 'label_bl': 2, 'ask': 3}


def make(rng, i, tier):
    hs = []
    for _ in range(6):
        w = dict(WEIGHTS)
        for k in list(w):
            if rng.random() < .1 and k != 'merge':
                w[k] = 0
        hs.append(dict(W.draw_history(rng, w, rng.choice([8, 15, 30]), pool=1, audit='end'), world='part'))
    for _ in range(6):
        hs.append(dict(C.draw_history(rng, rng.choice([8, 15, 30]), audit='end', ask=.2, labelled=.6), world='comp'))
    return {'histories': hs}


def execute(plan):
    part = W.execute({'histories': [h for h in plan['histories'] if h['world'] == 'part']}, ['refusal', 'relation', 'labels'])
    comp = C.execute({'histories': [h for h in plan['histories'] if h['world'] == 'comp']}, ['refusal'])
    out = {'viol': part['viol'] or comp['viol'], 'steps': part['steps'] + comp['steps'],
           'sigs': sorted(set(part['sigs']) | set(comp['sigs']))}
    for k in ('counts', 'probes', 'faults'):
        out[k] = dict(part[k])
        for n, v in comp[k].items():
            out[k][n] = out[k].get(n, 0) + v
    out['sig'] = W.digest(*out['sigs'])
    out['trivial'] = not out['sigs']
    return out


shrink = W.shrink
describe = W.describe
