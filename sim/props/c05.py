"""C05: meet, join and refinement order of partitions that keep changing"""
from .. import partworld as W

ID = 'C05'
LEVEL = 'exploration'
TECHNIQUE = 'interleaved histories of a pool of partitions against a lattice model'
NOTE = 'Seeded search over interleaved histories of up to nine partitions; trusts the reference model.'
RUNS = {'quick': 2500, 'thorough': 30000}
RULE = ('a run is 8 histories of 4 to 30 calls on a pool of up to nine partitions over one domain: merges and refinements of '
        'any member interleaved with meets, joins, comparisons and copies whose results join the pool; all members are looked '
        'at after every call; non-trivial: a change or lattice operation happened; distinct by the set of state pairs')
TIME_UNIT = 'calls in histories'
MEASURE = 'distinct operand state pairs of lattice operations, and partition states'
COMPONENTS = {'real': ['discretehelpers.set_part from the working tree'], 'stub': [], 'model': ['PartModel in sim/models.py']}
ASSUMPTIONS = ['all partitions of a pool have the same domain']
WEIGHTS = {'merge': 5, 'many': 1, 'refine': 2, 'ask': 1, 'meet': 3, 'join': 3, 'cmp': 4, 'copy': .5, 'rebuild': .5, 'new': .5}


def make(rng, i, tier):
    hs = []
    for _ in range(8):
        w = dict(WEIGHTS)
        if rng.random() < .1:
            w['label_el'] = .5
        hs.append(W.draw_history(rng, w, rng.choice([8, 15, 30]), pool=4, audit=rng.choice(['light', 'light', 'all'])))
    return {'histories': hs}


def execute(plan):
    return W.execute(plan, ['lattice'])


shrink = W.shrink
describe = W.describe
