"""C02: block labels follow their blocks"""
from .. import partworld as W

ID = 'C02'
LEVEL = 'exploration'
TECHNIQUE = 'seeded call histories with labels against a labelled partition model'
NOTE = 'Seeded search over histories; trusts the reference model of labelled partitions.'
RUNS = {'quick': 2500, 'thorough': 30000}
RULE = ('a run is 12 histories of 4 to 40 calls (label an element or block, merge, merge several, refine with or without new '
        'labels, questions) on one partition; non-trivial: at least one accepted change; distinct by the set of states reached')
TIME_UNIT = 'calls in histories'
MEASURE = 'distinct partition states (blocks, labels) reached'
COMPONENTS = {'real': ['discretehelpers.set_part from the working tree'], 'stub': [], 'model': ['PartModel in sim/models.py']}
ASSUMPTIONS = ['labels are hashable and not None',
               'labelling a singleton beyond the elements listed for an infinite domain may be accepted or refused']
WEIGHTS = {'merge': 3, 'many': 1, 'refine': 3, 'label_el': 5, 'label_bl': 3, 'ask': 5, 'audit': .5, 'rebuild': .3, 'copy': .2}


def make(rng, i, tier):
    hs = []
    for _ in range(12):
        w = dict(WEIGHTS)
        for k in list(w):
            if rng.random() < .12 and k not in ('merge', 'label_el'):
                w[k] = 0
        hs.append(W.draw_history(rng, w, rng.choice([8, 15, 25, 40]), pool=1))
    return {'histories': hs}


def execute(plan):
    return W.execute(plan, ['labels'])


shrink = W.shrink
describe = W.describe
