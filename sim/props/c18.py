"""C18: binary vectors keep denoting their digits through any history"""
import numpy as np

from .. import denote as D
from ..denote import Undefined

ID = 'C18'
LEVEL = 'exploration'
TECHNIQUE = 'seeded histories of operations, questions and interrupted calls over vectors built from each other, against a model of digits'
NOTE = ('The model is a tuple of digits. Bitwise operations and the bitwise order are used on vectors of equal length only; '
        'interrupted calls are questions and operations that make new vectors.')
RUNS = {'quick': 4000, 'thorough': 60000}
RULE = ('a run is a pool of up to 9 vectors, in part built from each other, and 10 to 50 operations, questions, interrupted calls and '
        'looks at the whole pool; non-trivial: a vector was built from others and more than five answers were compared; '
        'distinct by the history')
TIME_UNIT = 'calls'
MEASURE = 'distinct (digits, question, arguments) compared'
COMPONENTS = {'real': ['discretehelpers from the working tree, numpy'], 'stub': [], 'model': ['tuple of digits']}
ASSUMPTIONS = ['the caller does not change containers handed out by a question']


def bits(rng, n):
    p = rng.choice([.1, .5, .5, .5, .9])
    return [int(rng.random() < p) for _ in range(n)]


def R(i):
    return ['ref', i]


class Bits(D.World):
    def literal(self, rng):
        n = rng.choice([0, 1, 2, 3, 4, 4, 5, 6, 8, 8, 12, 16, 17, 20, 33, 49, 64, 65, 100])
        t = bits(rng, n)
        k = sum(b << i for i, b in enumerate(t))
        ex = [i for i, b in enumerate(t) if b]
        u = rng.random()
        if u < .45:
            return 'digits', [t, rng.choice(['list', 'tuple', 'str', 'spaced', 'bools', 'array'])]
        if u < .55:
            return 'number', [k, None, None]
        if u < .65:
            return 'number', [k, n, None]
        if u < .7:
            return 'number', [k, None, rng.randrange(12)]
        rng.shuffle(ex)
        return 'places', [ex, rng.choice(['list', 'tuple', 'set']), *rng.choice([[n, None], [None, None], [None, rng.randrange(12)]])]

    def derived(self, rng, vals):
        i = rng.randrange(len(vals))
        same = [j for j, v in enumerate(vals) if len(v) == len(vals[i])]
        j = rng.choice(same)
        u = rng.random()
        if u < .1:
            return 'again', [R(i)]
        if u < .25:
            return 'join', [R(i), R(rng.randrange(len(vals)))]
        if u < .4:
            return rng.choice(['invert', 'complement', 'reverse']), [R(i)]
        if u < .75:
            return rng.choice(['and', 'or', 'xor']), [R(i), R(j)]
        if u < .9 and vals[i]:
            return 'flip', [R(i), rng.randrange(-len(vals[i]) if u < .77 else 0, len(vals[i]))]
        return 'part', [R(i), rng.randrange(3), rng.randrange(len(vals[i]) + 2)]

    def model(self, op, a, vals):
        a = [vals[x[1]] if isinstance(x, list) and x and x[0] == 'ref' else x for x in a]
        if op == 'digits':
            return tuple(a[0])
        if op in ('number', 'places'):
            if op == 'number':
                k, n, low = a
                need = k.bit_length()
                if n is not None and n < need:
                    raise Undefined
            else:
                ex, _, n, low = a
                k = sum(1 << i for i in ex)
                need = max(ex) + 1 if ex else 0
            n = n if n is not None else max(need, low or 0)
            return tuple(k >> i & 1 for i in range(n))
        if op == 'again':
            return a[0]
        if op == 'join':
            if len(a[0]) + len(a[1]) > 240:
                raise Undefined
            return a[0] + a[1]
        if op in ('invert', 'complement'):
            return tuple(1 - b for b in a[0])
        if op == 'reverse':
            return a[0][::-1]
        if op in ('and', 'or', 'xor'):
            if len(a[0]) != len(a[1]):
                raise Undefined
            f = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}[op]
            return tuple(f(x, y) for x, y in zip(a[0], a[1]))
        if op == 'flip':
            if not -len(a[0]) <= a[1] < len(a[0]):
                raise Undefined
            k = a[1] % len(a[0])
            return a[0][:k] + (1 - a[0][k],) + a[0][k + 1:]
        return a[0][a[1]:a[2]]

    def build(self, op, a, objs):
        from discretehelpers.binv import Binv
        a = [objs[x[1]] if isinstance(x, list) and x and x[0] == 'ref' else x for x in a]
        if op == 'digits':
            t, how = a
            return Binv({'list': list, 'tuple': tuple, 'str': lambda t: ''.join(map(str, t)),
                         'spaced': lambda t: ' '.join(map(str, t)), 'bools': lambda t: [bool(b) for b in t],
                         'array': np.array}[how](t))
        if op == 'number':
            return Binv(intval=a[0], **self.lengths(a[1:]))
        if op == 'places':
            return Binv(exposet={'list': list, 'tuple': tuple, 'set': set}[a[1]](a[0]), **self.lengths(a[2:]))
        if op == 'again':
            return Binv(a[0])
        if op == 'join':
            return a[0] + a[1]
        if op == 'invert':
            return ~a[0]
        if op in ('complement', 'reverse'):
            return getattr(a[0], op)
        if op == 'and':
            return a[0] & a[1]
        if op == 'or':
            return a[0] | a[1]
        if op == 'xor':
            return a[0] ^ a[1]
        if op == 'flip':
            return a[0].flip_bit(a[1])
        return Binv(a[0][a[1]:a[2]])

    def lengths(self, ab):
        return {k: v for k, v in zip(('length', 'minimal_length'), ab) if v is not None}

    PLAIN = ['digits', 'len', 'length', 'intval', 'exposet', 'weight', 'changes', 'string', 'reverse', 'complement',
             'required_length', 'sum', 'iter', 'blocks']
    PAIR = ['==', '!=', '<', '<=', '>', '>=', 'bitwise_smaller', 'hash']

    def question(self, rng, vals, i):
        u = rng.random()
        if u < .6:
            return rng.choice(self.PLAIN), []
        if u < .7:
            return '[]', [rng.randrange(max(9, len(vals[i])))]
        if u < .78:
            return 'has_index', [rng.randrange(max(20, len(vals[i]) + 3))]
        return rng.choice(self.PAIR), [R(rng.randrange(len(vals)))]

    def core(self, vals, i):
        return [[q, []] for q in self.PLAIN]

    def said(self, q, a, vals, i):
        v = vals[i]
        if q in ('digits', 'iter'):
            return list(v)
        if q in ('len', 'length'):
            return len(v)
        if q == 'intval':
            return sum(b << k for k, b in enumerate(v))
        if q == 'exposet':
            return [k for k, b in enumerate(v) if b]
        if q in ('weight', 'sum'):
            return sum(v)
        if q == 'changes':
            return sum(v[k] != v[k + 1] for k in range(len(v) - 1))
        if q == 'string':
            return ''.join(map(str, v))
        if q == 'reverse':
            return list(v[::-1])
        if q == 'complement':
            return [1 - b for b in v]
        if q == 'required_length':
            return max([k + 1 for k, b in enumerate(v) if b], default=0)
        if q == 'blocks':
            return [[k for k, b in enumerate(v) if b], [k for k, b in enumerate(v) if not b]]
        if q == '[]':
            if a[0] >= len(v):
                raise Undefined
            return v[a[0]]
        if q == 'has_index':
            return a[0] < len(v) and bool(v[a[0]])
        w = vals[a[0][1]]
        if q == 'hash':
            if v != w:
                raise Undefined
            return True
        if q == 'bitwise_smaller':
            if len(v) != len(w):
                raise Undefined
            return v != w and all(x <= y for x, y in zip(v, w))
        return {'==': v == w, '!=': v != w, '<': v < w, '<=': v <= w, '>': v > w, '>=': v >= w}[q]

    def asked(self, q, a, objs, i):
        o = objs[i]
        if q == 'digits':
            return [int(b) for b in o.vector]
        if q == 'iter':
            return [int(b) for b in o]
        if q == 'len':
            return len(o)
        if q == 'sum':
            return sum(o)
        if q == 'exposet':
            return sorted(o.exposet)
        if q in ('reverse', 'complement'):
            return [int(b) for b in getattr(o, q).vector]
        if q == 'blocks':
            part = o.set_part
            n = len(o.vector)
            out = [[], []]
            ones = sorted(o.exposet)
            for k in range(n):
                same = [j for j in range(n) if j == k or any(j in b and k in b for b in part.blocks)]
                out[0 if k in ones else 1].append(k)
                if sorted(same) != [j for j in range(n) if (j in ones) == (k in ones)]:
                    return 'blocks %s' % part.blocks
            return out
        if q == '[]':
            return int(o[a[0]])
        if q == 'has_index':
            return o.has_index(a[0])
        if q in ('length', 'intval', 'weight', 'changes', 'string', 'required_length'):
            return getattr(o, q)
        p = objs[a[0][1]]
        if q == 'hash':
            return hash(o) == hash(p)
        if q == 'bitwise_smaller':
            return o.bitwise_smaller(p)
        return {'==': lambda: o == p, '!=': lambda: o != p, '<': lambda: o < p, '<=': lambda: o <= p, '>': lambda: o > p,
                '>=': lambda: o >= p}[q]()


WORLD = Bits()
NOISE = ['str', 'pretty', 'hash', 'refused']


def noise(rng, i, vals):
    return [rng.choice(NOISE), R(i), rng.randrange(9)]


def make_noise(s, objs):
    what, ref, k = s
    o = objs[ref[1]]
    if what == 'str':
        str(o)
    elif what == 'pretty':
        o.pretty
    elif what == 'hash':
        {o: 1}
    else:
        from discretehelpers.binv import Binv
        for f in (lambda: Binv([0, 2]), lambda: o.flip_bit(len(o) + k), lambda: o + 'x', lambda: o == 3,
                  lambda: Binv(intval=5, length=1)):
            try:
                f()
            except Exception:
                pass


def make(rng, i, tier):
    return D.draw(rng, WORLD, noise)


def execute(plan):
    return D.execute(plan, WORLD, make_noise)


shrink = D.shrink


def describe(plan):
    return D.describe(plan, WORLD)
