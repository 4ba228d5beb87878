"""Pools of library objects made from literals and from each other, and questions to them."""
from . import catalog as C
from . import expr as E
from .core import Rng

WEIGHT = {'Boolf': 10, 'Binv': 2, 'Perm': 2.5, 'SigPerm': 1.5, 'WalshPerm': 2, 'SetPart': 1.5}

_universes = {}


def universe(seed, block, size=36):
    """literals shared by the runs of one block, so that reference answers can be reused"""
    key = (seed, block, size)
    if key not in _universes:
        _universes.clear()
        u = {}
        for kind in C.KINDS:
            rng = Rng('%s/universe/%s/%s' % (seed, block, kind))
            u[kind] = [C.LITERAL[kind](rng) for _ in range(size)]
        _universes[key] = u
    return _universes[key]


def pick_kind(rng):
    return rng.choices(C.KINDS, [WEIGHT[k] for k in C.KINDS])[0]


BOOLF_TO_BOOLF = ['complement', 'reverse', 'root_boolf', 'blightless_boolf', 'bloatless_boolf', 'prefect_boolf',
                  'bloat_boolf', 'blight_boolf', 'blot_boolf', 'gapless_boolf', 'family_malerep']


def derive(rng, kind, x, y):
    """an expression that makes a new object of the same kind from x and y"""
    if kind == 'Boolf':
        u = rng.random()
        if u < .35:
            return ['op', rng.choice('&|^'), x, y]
        if u < .45:
            return ['op', '~', x]
        if u < .65:
            return ['attr', x, rng.choice(BOOLF_TO_BOOLF)]
        if u < .75:
            return ['call', x, rng.choice(['twin', 'leader']), rng.choice([[], [rng.hint]])]
        if u < .85:
            return ['call', x, 'apply', C._signed_perm(rng, rng.hint)]
        if u < .9:
            return ['call', x, 'filtrated_boolf', [C._keys(rng)]]
        if u < .95:
            return ['new', 'Boolf', [['attr', x, 'root'], ['attr', x, 'atomvals']]]
        return ['new', 'Boolf', [], {rng.choice(['multi_and', 'multi_or', 'multi_xor', 'multi_xand']): E.L([x, y, rng.randrange(3)])}]
    if kind == 'Binv':
        return rng.choice([['op', rng.choice(['+', '&', '|', '^']), x, y], ['op', '~', x], ['attr', x, 'reverse'],
                           ['attr', x, 'complement'], ['call', x, 'flip_bit', [rng.randrange(4)]], ['new', 'Binv', [x]],
                           ['new', 'Binv', [['op', '[]', x, ['slice', 0, rng.randrange(1, 6)]]]]])
    if kind == 'Perm':
        return rng.choice([['op', '*', x, y], ['op', '*', y, x], ['attr', x, 'inverse'], ['op', '**', x, rng.randrange(-3, 4)],
                           ['attr', x, 'schoute_perm'], ['new', 'Perm', [x]]])
    if kind == 'SigPerm':
        return rng.choice([['op', '*', x, y], ['op', '*', y, x], ['attr', x, 'inverse']])
    if kind == 'WalshPerm':
        return rng.choice([['op', '*', x, y], ['op', '*', y, x], ['attr', x, 'inverse'], ['attr', x, 'transpose'],
                           ['op', '**', x, rng.randrange(-3, 4)]])
    return rng.choice([['call', x, 'meet', [y]], ['call', x, 'join', [y]]])


def group_of(names, name, prefix=5):
    """questions whose names start alike: they often share one computation"""
    return [n for n in names if n[:prefix] == name[:prefix]] or [name]


class Drawer:
    """draws the objects and questions of one run"""

    def __init__(self, rng, uni, kinds=None):
        self.rng = rng
        self.uni = uni
        self.makes = []         # expressions
        self.kinds = []
        self.recipes = []
        self.hints = []
        self.only = kinds

    def literal(self, kind):
        e = self.rng.choice(self.uni[kind])
        return self.add(e, kind)

    def add(self, e, kind):
        self.makes.append(e)
        self.kinds.append(kind)
        r = E.resolve(e, self.recipes)
        self.recipes.append(r)
        self.hints.append(min(4, C.hint_of(r)) if kind == 'Boolf' else 3)
        return len(self.makes) - 1

    def derived(self, i=None):
        rng = self.rng
        if i is None:
            i = rng.randrange(len(self.makes))
        kind = self.kinds[i]
        same = [j for j in range(len(self.makes)) if self.kinds[j] == kind]
        j = rng.choice(same)
        rng.hint = self.hints[i] or 1
        e = derive(rng, kind, ['ref', i], ['ref', j])
        r = E.resolve(e, self.recipes)
        if E.size(r) > 220 or str(r).count("'schoute_perm'") > 1:     # a Schoute permutation is exponentially long
            return self.literal(kind)
        return self.add(e, kind)

    def other(self, i):
        same = [j for j in range(len(self.makes)) if self.kinds[j] == self.kinds[i]]
        return ['ref', self.rng.choice(same)]

    def question(self, i, heavy=False, focus=None):
        """question to object i; focus: names to choose from"""
        rng = self.rng
        rng.hint = self.hints[i] or 1
        kind = self.kinds[i]
        rng.names = C.names_of(self.recipes[i]) if kind == 'Boolf' else None
        x = ['ref', i]
        if focus and kind == 'Boolf' and rng.random() < .9:
            n = rng.choice(focus)
            if n in C.BOOLF_CALLS:
                return ['call', x, n, C.BOOLF_CALLS[n](rng)]
            if n in C.BOOLF_HEAVY_CALLS:
                return ['call', x, n, C.BOOLF_HEAVY_CALLS[n](rng)]
            return ['attr', x, n]
        q = C.QUESTION[kind](rng, x, self.other(i), heavy)
        if kind == 'Perm' and "'schoute_perm'" in str(q) and "'schoute_perm'" in str(self.recipes[i]):
            return ['attr', x, 'inverse']
        return q


def focus_names(rng, n=10):
    """a handful of Boolean function questions, related ones together"""
    names = C.BOOLF_ATTRS + sorted(C.BOOLF_CALLS)
    out = []
    while len(out) < n:
        name = rng.choice(names)
        if rng.random() < .5:
            g = group_of(names, name)
            for m in rng.sample(g, min(len(g), 4)):
                if m not in out:
                    out.append(m)
        elif name not in out:
            out.append(name)
    return out
