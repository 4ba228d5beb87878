"""C01: a set partition always answers for the changes accepted so far"""
from .. import partworld as W

ID = 'C01'
LEVEL = 'exploration'
TECHNIQUE = 'seeded call histories against a partition model'
NOTE = 'Seeded search over histories; a held result says no explored history broke the property. Trusts the small reference model. Mutation from several threads and asynchronous interruption of a change are not claimed.'
RUNS = {'quick': 2500, 'thorough': 30000}
RULE = ('a run is 12 histories of 4 to 40 calls (merge, merge several, refine, label, questions) on one or two partitions; '
        'non-trivial: at least one accepted change; distinct by the set of states (blocks and labels) reached')
TIME_UNIT = 'calls in histories'
MEASURE = 'distinct partition states (blocks, labels) reached'
COMPONENTS = {'real': ['discretehelpers.set_part from the working tree'], 'stub': [], 'model': ['PartModel in sim/models.py']}
ASSUMPTIONS = ['elements of one domain are mutually comparable and hashable', 'one thread; interruption of a change is not claimed']
WEIGHTS = {'merge': 5, 'many': 2, 'refine': 3, 'ask': 8, 'audit': 1}


def make(rng, i, tier):
    hs = []
    for _ in range(12):
        w = dict(WEIGHTS)
        if rng.random() < .25:
            w.update({'label_el': 1.5, 'label_bl': .7})
        for k in list(w):
            if rng.random() < .15 and k != 'merge':
                w[k] = 0
        hs.append(W.draw_history(rng, w, rng.choice([8, 15, 25, 40]), pool=rng.choice([1, 1, 2])))
    return {'histories': hs}


def execute(plan):
    return W.execute(plan, ['relation'])


shrink = W.shrink
describe = W.describe
