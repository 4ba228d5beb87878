"""C04: equality and complement statements are closed under their consequences"""
from .. import compworld as C

ID = 'C04'
LEVEL = 'exploration'
TECHNIQUE = 'seeded statement histories against a parity union-find model'
NOTE = 'Seeded search over statement orders; trusts the parity model.'
RUNS = {'quick': 2500, 'thorough': 30000}
RULE = ('a run is 12 histories of 4 to 30 statements and questions on one or two relations; non-trivial: at least one accepted '
        'statement; distinct by the set of states (equality blocks, complement pairs) reached')
TIME_UNIT = 'calls in histories'
MEASURE = 'distinct relation states reached'
COMPONENTS = {'real': ['discretehelpers.set_part_comp, set_part, boolf from the working tree'], 'stub': [],
              'model': ['ParityModel in sim/models.py']}
ASSUMPTIONS = ['elements are integers', 'characteristic function compared when all elements are in 0..6']


def make(rng, i, tier):
    return {'histories': [C.draw_history(rng, rng.choice([6, 12, 20, 30])) for _ in range(12)]}


def execute(plan):
    return C.execute(plan, ['closure'])


shrink = C.shrink
describe = C.describe
