"""C16: a Boolean function keeps denoting its truth table through any history"""
from fractions import Fraction

from .. import denote as D
from ..denote import Undefined

ID = 'C16'
LEVEL = 'exploration'
TECHNIQUE = 'seeded histories of operations, questions and interrupted calls over a shared pool, against truth tables over named arguments'
NOTE = ('Model: ascending argument names and a tuple of truth values. Functions have up to five arguments named 0 to 6. Functions '
        'kept in inflated form take part in operations and questions about evaluation.')
RUNS = {'quick': 2600, 'thorough': 40000}
RULE = ('a run is a pool of up to 9 Boolean functions, in part built from each other, and 10 to 50 operations, questions, interrupted '
        'calls and looks at the whole pool; non-trivial: one was built from others and more than five answers were compared; '
        'distinct by the history')
TIME_UNIT = 'calls'
MEASURE = 'distinct (function, question, arguments) compared'
COMPONENTS = {'real': ['discretehelpers from the working tree, numpy, sympy'], 'stub': [],
              'model': ['truth tables as tuples']}
ASSUMPTIONS = ['the caller does not change containers handed out by a question']


def R(i):
    return ['ref', i]


def bits(n, k):
    return tuple(n >> b & 1 for b in range(k))


def pick(x, places):
    """the digits of x at the places, as a number"""
    return sum((x >> p & 1) << k for k, p in enumerate(places))


def at(v, x):
    """value on the input whose digit n is argument n"""
    return v[1][pick(x, v[0])]


def over(v, names):
    """truth table over the given ascending names, which contain those of v"""
    places = [names.index(n) for n in v[0]]
    return tuple(v[1][pick(x, places)] for x in range(1 << len(names)))


def deflated(names, tt):
    names, tt = list(names), tuple(tt)
    k = 0
    while k < len(names):
        if all(tt[x] == tt[x ^ 1 << k] for x in range(len(tt))):
            tt = tuple(tt[x] for x in range(len(tt)) if not x >> k & 1)
            del names[k]
            k = 0
        else:
            k += 1
    return tuple(names), tt


def ordered(names, tt):
    """the way the library reads a table with names in any order: digit k of the place becomes digit places[k]"""
    asc = sorted(names)
    places = [names.index(n) for n in asc]
    out = [0] * len(tt)
    for x in range(len(tt)):
        y = sum((x >> k & 1) << p for k, p in enumerate(places))
        out[y] = tt[x]
    return asc, out


def combine(f, *vs):
    names = sorted(set(n for v in vs for n in v[0]))
    tabs = [over(v, names) for v in vs]
    return deflated(names, [int(f(*t)) for t in zip(*tabs)])


def mobius(tt):
    out = list(tt)
    step = 1
    while step < len(out):
        for x in range(len(out)):
            if x & step:
                out[x] ^= out[x ^ step]
        step <<= 1
    return out


def spectrum(tt):
    return [sum(-t if bin(i & x).count('1') % 2 else t for x, t in enumerate(tt)) for i in range(len(tt))]


def renamed(v, signed):
    """argument k of v becomes the one named signed[k], negated if negative"""
    names = [~s if s < 0 else s for s in signed]
    asc = sorted(names)
    if len(set(asc)) < len(asc):
        raise Undefined
    out = []
    for x in range(1 << len(asc)):
        y = 0
        for k, s in enumerate(signed):
            b = x >> asc.index(names[k]) & 1
            y |= (b ^ (s < 0)) << k
        out.append(v[1][y])
    return deflated(asc, out)


def projected(v, names):
    """true where some choice of the other arguments makes v true"""
    asc = sorted(names)
    places = [v[0].index(n) for n in asc]
    out = [0] * (1 << len(asc))
    for x, t in enumerate(v[1]):
        out[pick(x, places)] |= t
    return deflated(asc, out)


def adicity(v):
    return max(v[0]) + 1 if v[0] else 0


def whole(v, arity):
    return over(v, list(range(arity)))


def splits(v):
    spots = [x for x, t in enumerate(v[1]) if t]
    return [[sorted(x for x in spots if x >> k & 1), sorted(x for x in spots if not x >> k & 1)] for k in range(len(v[0]))]


def layers(tt):
    n = len(tt).bit_length() - 1
    return [[t for x, t in enumerate(tt) if bin(x).count('1') == w] for w in range(n + 1)]


class Boolfs(D.World):
    def table(self, rng, n):
        u = rng.random()
        size = 1 << n
        if u < .15 and n:       # an argument that does not matter
            k = rng.randrange(n)
            t = [rng.randrange(2) for _ in range(size)]
            return [t[x & ~(1 << k)] for x in range(size)]
        if u < .3 and n > 1:    # arguments that agree, or a forced one
            t = [rng.randrange(2) for _ in range(size)]
            a, b = rng.sample(range(n), 2)
            flip = rng.randrange(2)
            return [t[x] if (x >> a ^ x >> b) & 1 == flip else 0 for x in range(size)]
        if u < .4:
            w = [rng.randrange(2) for _ in range(n + 1)]
            return [w[bin(x).count('1')] for x in range(size)]
        if u < .48:
            i, o = rng.randrange(size), rng.randrange(2)
            return [bin(x & i).count('1') % 2 ^ o for x in range(size)]
        p = rng.choice([.2, .5, .5, .8])
        return [int(rng.random() < p) for _ in range(size)]

    def literal(self, rng):
        n = rng.choice([1, 2, 2, 3, 3, 4])
        t = self.table(rng, n)
        names = rng.sample(range(6), n)
        if rng.random() < .5:
            names.sort()
        u = rng.random()
        if u < .3:
            return 'tt', [rng.choice(['str', 'list', 'tuple', 'Binv', 'bools']), t, names if rng.random() < .7 else None]
        if u < .38:
            return 'int', [sum(b << k for k, b in enumerate(t)), n]
        if u < .42:
            return 'bool', [rng.randrange(2)]
        if u < .55:
            return 'spots', [[x for x in range(len(t)) if t[x]], names if rng.random() < .7 else None, n, rng.choice(['list', 'set'])]
        if u < .65:
            return 'atom', [rng.randrange(-6, 6)]
        if u < .75:
            return 'zhe', [rng.randrange(rng.choice([4, 16, 256, 65536]))]
        if u < .85:
            return 'ws', [spectrum(t)]
        if u < .9:
            return 'multi', [rng.choice(['and', 'or', 'xor', 'xand']), [rng.randrange(-5, 5) for _ in range(rng.randrange(4))]]
        return 'inflated', [t, names]

    def derived(self, rng, vals):
        i, j = rng.randrange(len(vals)), rng.randrange(len(vals))
        v = vals[i]
        u = rng.random()
        if u < .3:
            return rng.choice('&|^'), [R(i), R(j)]
        if u < .38:
            return rng.choice(['~', 'complement']), [R(i)]
        if u < .43:
            return 'reverse', [R(i)]
        if u < .49:
            return 'twin', [R(i), rng.choice([None, adicity(v), adicity(v) + 1])]
        if u < .58:
            names = rng.sample(range(7), len(v[0]))
            return 'apply', [R(i), [~n if rng.random() < .4 else n for n in names]]
        if u < .66:
            n = rng.choice([2, 3, 4, 5])
            p = list(range(n))
            rng.shuffle(p)
            kind = rng.choice(['list', 'tuple', 'SigPerm', 'Perm'])
            return 'sigperm', [R(i), [~x if kind != 'Perm' and rng.random() < .4 else x for x in p], kind]
        if u < .76:
            if not v[0]:
                return None
            names = rng.sample(list(v[0]), rng.randrange(1, len(v[0]) + 1))
            if rng.random() < .7:
                names.sort()
            return 'project', [R(i), names]
        if u < .88:
            k = rng.randrange(4)
            return 'multi', [rng.choice(['and', 'or', 'xor', 'xand']),
                             [R(rng.randrange(len(vals))) if rng.random() < .7 else rng.randrange(-5, 5) for _ in range(k)]]
        if u < .91:
            return 'root', [R(i)]
        return 'again', [R(i), rng.choice(['root', 'binv', 'spots', 'zhe', 'ws', 'tt', 'int'])]

    def model(self, op, a, vals):
        def val(x):
            return vals[x[1]]
        if op == 'tt':
            names = a[2] if a[2] is not None else list(range(len(a[1]).bit_length() - 1))
            return deflated(*ordered(names, a[1]))
        if op == 'int':
            return deflated(range(a[1]), bits(a[0], 1 << a[1]))
        if op == 'bool':
            return (), (a[0],)
        if op == 'spots':
            names = a[1] if a[1] is not None else list(range(a[2]))
            return deflated(*ordered(names, [int(x in a[0]) for x in range(1 << len(names))]))
        if op == 'atom':
            return ((~a[0],), (1, 0)) if a[0] < 0 else ((a[0],), (0, 1))
        if op == 'zhe':
            n = 0
            while a[0] >> (1 << n):
                n += 1
            return deflated(range(n), mobius(bits(a[0], 1 << n)))
        if op == 'ws':
            t = [x // len(a[0]) for x in spectrum(a[0])]
            return deflated(range(len(t).bit_length() - 1), t)
        if op == 'multi':
            out = ((), (int(a[0] in ('and', 'xand')),))
            for x in a[1]:
                w = val(x) if isinstance(x, list) else self.model('atom', [x], vals)
                f = {'and': lambda p, q: p & q, 'or': lambda p, q: p | q, 'xor': lambda p, q: p ^ q, 'xand': lambda p, q: 1 ^ p ^ q}[a[0]]
                out = combine(f, out, w)
                if len(out[0]) > 5:
                    raise Undefined
            return out
        if op == 'inflated':
            if len(set(a[0])) == 1:
                raise Undefined
            names, t = ordered(a[1], a[0])
            return tuple(names), tuple(t)
        v = val(a[0])
        if op in '&|^':
            f = {'&': lambda p, q: p & q, '|': lambda p, q: p | q, '^': lambda p, q: p ^ q}[op]
            out = combine(f, v, val(a[1]))
            if len(out[0]) > 5:
                raise Undefined
            return out
        if op in ('~', 'complement'):
            return combine(lambda p: 1 - p, v)
        if op == 'reverse':
            return deflated(v[0], v[1][::-1])
        if op == 'twin':
            n = adicity(v) if a[1] is None else a[1]
            out = deflated(range(n), mobius(whole(v, n)))
            if len(out[0]) > 5:
                raise Undefined
            return out
        if op == 'apply':
            if not v[0]:
                raise Undefined
            return renamed(v, a[1])
        if op == 'sigperm':
            if not v[0]:
                return v
            p = a[1]
            return renamed(v, [p[n] if n < len(p) else n for n in v[0]])
        if op == 'project':
            return projected(v, a[1])
        if op == 'root':
            if v != deflated(*v):
                raise Undefined
            return deflated(range(len(v[0])), v[1])
        if op == 'again' and a[1] == 'zhe' and not v[0]:
            return v
        return deflated(*v)

    def build(self, op, a, objs):
        from discretehelpers.binv import Binv
        from discretehelpers.boolf import Boolf
        from discretehelpers.perm import Perm
        from discretehelpers.sig_perm import SigPerm

        def obj(x):
            return objs[x[1]]
        if op == 'tt':
            t = {'str': lambda t: ''.join(map(str, t)), 'list': list, 'tuple': tuple, 'Binv': Binv,
                 'bools': lambda t: [bool(x) for x in t]}[a[0]](a[1])
            return Boolf(t, list(a[2])) if a[2] is not None else Boolf(t)
        if op == 'int':
            return Boolf(a[0], arity=a[1])
        if op == 'bool':
            return Boolf(bool(a[0]))
        if op == 'spots':
            s = set(a[0]) if a[3] == 'set' else list(a[0])
            return Boolf(fullspots=s, atomvals=list(a[1])) if a[1] is not None else Boolf(fullspots=s, arity=a[2])
        if op == 'atom':
            return Boolf(atom=a[0])
        if op == 'zhe':
            return Boolf(zhe=a[0])
        if op == 'ws':
            return Boolf(walsh_spectrum=list(a[0]))
        if op == 'multi':
            return Boolf(**{'multi_' + a[0]: [obj(x) if isinstance(x, list) else x for x in a[1]]})
        if op == 'inflated':
            return Boolf(list(a[0]), list(a[1]), skip_deflation=True)
        o = obj(a[0])
        if op == '&':
            return o & obj(a[1])
        if op == '|':
            return o | obj(a[1])
        if op == '^':
            return o ^ obj(a[1])
        if op == '~':
            return ~o
        if op in ('complement', 'reverse'):
            return getattr(o, op)
        if op == 'twin':
            return o.twin() if a[1] is None else o.twin(a[1])
        if op == 'apply':
            return o.apply(*a[1])
        if op == 'sigperm':
            p = a[1]
            return o.apply_sigperm({'list': list, 'tuple': tuple, 'SigPerm': lambda p: SigPerm(sequence=list(p)),
                                    'Perm': lambda p: Perm(list(p))}[a[2]](p))
        if op == 'project':
            return o.filtrated_boolf(list(a[1]))
        if op == 'root':
            return o.root_boolf
        kind = a[1]
        if kind == 'root':
            return Boolf(list(o.root), list(o.atomvals))
        if kind == 'binv':
            return Boolf(o.root, o.atomvals)
        if kind == 'spots':
            return Boolf(fullspots=o.fullspots, atomvals=o.atomvals)
        if kind == 'zhe':
            return Boolf(zhe=o.zhe)
        if kind == 'ws':
            return Boolf(walsh_spectrum=o.walsh_spectrum())
        if kind == 'tt':
            return Boolf(o.tt())
        return Boolf(o.tt().intval, arity=o.adicity)

    PLAIN = ['values', 'root', 'atomvals', 'tt', 'fullspots', 'weight', 'zhe', 'spectrum', 'complement', 'reverse', 'size', 'fullspot_atoms',
             'layered_fullspots', 'fullspot_weights', 'links', 'layered_tt', 'layered_weight', 'is_symmetric', 'splits', 'value_fract',
             'flags', 'is_linear', 'pairs', 'bloat', 'blot', 'parts', 'overlaps']
    LOOK = ['values', 'root', 'atomvals', 'tt', 'fullspots', 'weight', 'zhe', 'spectrum', 'complement', 'reverse', 'layered_tt', 'splits', 'links']

    def question(self, rng, vals, i):
        v = vals[i]
        n = adicity(v)
        u = rng.random()
        if u < .45:
            return rng.choice(self.PLAIN), []
        if u < .5:
            return '[]', [rng.randrange(200)]
        if u < .62:
            q = rng.choice(['tt', 'tt', 'spectrum', 'twin', 'consul', 'distances', 'is_sharp', 'abs_spectrum', 'patron'])
            more = rng.randrange(7 - min(n, 6)) if q in ('tt', 'spectrum', 'twin', 'abs_spectrum') and rng.random() < .5 else rng.randrange(2)
            return q, [n + more]
        if u < .7:
            more = [x for x in range(7) if x not in v[0]]
            names = list(v[0]) + rng.sample(more, rng.randrange(0, min(4, 7 - len(v[0]))))
            rng.shuffle(names)
            return rng.choice(['tt_over', 'spots_over']), [names, rng.choice(['list', 'set', 'tuple'])]
        if u < .74:
            return 'val', [[rng.randrange(2) for _ in v[0]]]
        if u < .78:
            p = list(range(len(v[0])))
            rng.shuffle(p)
            return 'vals', [[~x if rng.random() < .4 else x for x in p]]
        if u < .82:
            return 'project', [rng.sample(list(v[0]), rng.randrange(1, len(v[0]) + 1)) if v[0] else []]
        return rng.choice(['==', '!=', 'hash', 'bitwise_lt', 'bitwise_le', 'bitwise_ge', 'bitwise_gt', '&', '|', '^']), [R(rng.randrange(len(vals)))]

    def core(self, vals, i):
        out = []
        for q in self.LOOK:
            try:
                self.said(q, [], vals, i)
                out.append([q, []])
            except Undefined:
                pass
        return out

    def said(self, q, a, vals, i):
        v = vals[i]
        names, t = v
        n = adicity(v)
        plain = v == deflated(*v)
        spots = [x for x in range(len(t)) if t[x]]
        if q == 'values':
            return [at(v, x) for x in range(128)]
        if q == 'root':
            return list(t)
        if q == 'atomvals':
            return list(names)
        if q == 'tt':
            return list(whole(v, a[0] if a else n))
        if q == 'fullspots':
            return spots
        if q == 'weight':
            return Fraction(len(spots), len(t))
        if q == 'zhe':
            return sum(b << k for k, b in enumerate(mobius(whole(v, n))))
        if q in ('spectrum', 'abs_spectrum'):
            s = spectrum(whole(v, a[0] if a else n))
            return s if q == 'spectrum' else [abs(x) for x in s]
        if q == 'complement':
            return [1 - at(v, x) for x in range(128)]
        if q == 'reverse':
            return [at(v, x ^ 127) for x in range(128)]
        if q == 'size':
            return [len(names), n, not names, names == tuple(range(len(names)))]
        if q == 'fullspot_atoms':
            return {x: [k for k in range(len(names)) if x >> k & 1] for x in spots}
        if q == 'layered_fullspots':
            return [[x for x in spots if bin(x).count('1') == w] for w in range(len(names) + 1)]
        if q == 'fullspot_weights':
            return sorted(set(bin(x).count('1') for x in spots))
        if q == 'links':
            return sum(1 for x in spots for k in range(len(names)) if not x >> k & 1 and x | 1 << k in spots)
        if q == 'layered_tt':
            return layers(t)
        if q == 'layered_weight':
            return [sum(x) for x in layers(t)]
        if q == 'is_symmetric':
            return all(len(set(x)) < 2 for x in layers(t))
        if q == 'splits':
            return splits(v)
        if q == 'value_fract':
            if not n and not t[0]:
                return Fraction(0)
            return Fraction(int(''.join(map(str, whole(v, n))), 2), (1 << (1 << n)) - 1)
        if q == 'flags':
            return [t[0], t[-1], t[0] ^ t[-1], len(spots) % 2, t[0] + 2 * t[-1]]
        if q == 'is_linear':
            z = mobius(t)
            return all(bin(k).count('1') < 2 for k in range(len(z)) if z[k])
        if q == 'pairs':
            out = {}
            for y in range(len(names)):
                for x in range(y):
                    out[x, y] = ''.join(str(int(any((s >> x & 1) + 2 * (s >> y & 1) == k for s in spots))) for k in range(4))
            return out
        if q == 'overlaps':
            return {k: p.count('1') for k, p in self.said('pairs', [], vals, i).items()}
        if q == 'bloat':
            if not plain or not spots:
                raise Undefined
            pairs = self.said('pairs', [], vals, i)
            onesided = [k for k, s in enumerate(splits(v)) if not (s[0] and s[1])]

            def law(x):
                x = [x >> k & 1 for k in names]
                for (k, m), p in pairs.items():
                    if k in onesided and m in onesided or k not in onesided and m not in onesided:
                        if p in ('1001', '1000', '0001') and x[k] != x[m] or p in ('0110', '0100', '0010') and x[k] == x[m]:
                            return 0
                return 1
            return [law(x) for x in range(128)]
        if q == 'blot':
            if not plain or not spots:
                raise Undefined
            sides = splits(v)
            return [int(all((s[1] or x >> m & 1) and (s[0] or not x >> m & 1) for m, s in zip(names, sides))) for x in range(128)]
        if q == 'parts':
            if not plain:
                raise Undefined
            return [at(v, x) for x in range(128)]
        if q == '[]':
            return at(v, a[0])
        if q == 'twin':
            m = mobius(whole(v, a[0]))
            return [m[x & (1 << a[0]) - 1] for x in range(128)]
        if q == 'patron':
            m, w = mobius(whole(v, a[0])), whole(v, a[0])
            return [m[x & (1 << a[0]) - 1] ^ w[x & (1 << a[0]) - 1] for x in range(128)]
        if q == 'consul':
            out = 0
            for x, b in enumerate(whole(v, a[0])):
                out ^= x * b
            return out
        if q == 'distances':
            w = whole(v, a[0])
            return [sum(bin(x & r).count('1') % 2 ^ w[x] for x in range(len(w))) for r in range(len(w))]
        if q == 'is_sharp':
            return bool(sum(whole(v, a[0])) % 2)
        if q in ('tt_over', 'spots_over'):
            if not set(names) <= set(a[0]):
                raise Undefined
            w = over(v, sorted(a[0]))
            return list(w) if q == 'tt_over' else [x for x in range(len(w)) if w[x]]
        if q == 'val':
            if not names or len(a[0]) != len(names):
                raise Undefined
            return t[sum(b << k for k, b in enumerate(a[0]))]
        if q == 'vals':
            if not names or len(a[0]) != len(names):
                raise Undefined
            return [t[sum((x >> (~s if s < 0 else s) & 1 ^ (s < 0)) << k for k, s in enumerate(a[0]))] for x in range(len(t))]
        if q == 'project':
            if not a[0]:
                raise Undefined
            w = projected(v, a[0])
            return [at(w, x) for x in range(128)]
        w = vals[a[0][1]]
        if q == 'hash':
            if v != w:
                raise Undefined
            return True
        if q in ('==', '!='):
            return (v == w) == (q == '==')
        if q in '&|^':
            f = {'&': lambda p, r: p & r, '|': lambda p, r: p | r, '^': lambda p, r: p ^ r}[q]
            return [f(at(v, x), at(w, x)) for x in range(128)]
        if not plain or w != deflated(*w):
            raise Undefined
        le = all(at(v, x) <= at(w, x) for x in range(128))
        ge = all(at(v, x) >= at(w, x) for x in range(128))
        return {'bitwise_le': le, 'bitwise_ge': ge, 'bitwise_lt': le and v != w, 'bitwise_gt': ge and v != w}[q]

    def asked(self, q, a, objs, i):
        o = objs[i]

        def values(f):
            return [int(f[x]) for x in range(128)]

        def ints(xs):
            return [int(x) for x in xs]
        if q == 'values':
            return values(o)
        if q == 'root':
            return ints(o.root)
        if q == 'atomvals':
            return list(o.atomvals)
        if q == 'tt':
            return ints(o.tt(*a))
        if q == 'fullspots':
            return sorted(o.fullspots)
        if q == 'weight':
            return o.weight_fract
        if q == 'zhe':
            return int(o.zhe)
        if q == 'spectrum':
            return list(o.walsh_spectrum(*a))
        if q == 'abs_spectrum':
            return list(o.walsh_spectrum_abs(*a))
        if q == 'complement':
            return values(o.complement)
        if q == 'reverse':
            return values(o.reverse)
        if q == 'size':
            return [o.valency, o.adicity, bool(o.is_constant), bool(o.is_root)]
        if q == 'fullspot_atoms':
            return {int(k): ints(x) for k, x in o.fullspot_atoms.items()}
        if q in ('layered_fullspots', 'layered_tt'):
            return [ints(x) for x in getattr(o, q)]
        if q in ('fullspot_weights', 'layered_weight'):
            return ints(getattr(o, q))
        if q == 'links':
            return int(o.number_of_fullspotlinks)
        if q in ('is_symmetric', 'is_linear'):
            return bool(getattr(o, q))
        if q == 'splits':
            return [[sorted(x) for x in s] for s in o.splits]
        if q == 'value_fract':
            return o.value_fract()
        if q == 'flags':
            return ints([o.is_odd, o.is_odious, o.is_ugly, o.is_male, o.quadrant])
        if q == 'pairs':
            return {(int(k), int(m)): str(x) for (k, m), x in o.filtrated_pairs.items()}
        if q == 'overlaps':
            return {(int(k), int(m)): int(x) for (k, m), x in o.splits_overlap_counts.items()}
        if q == 'bloat':
            return values(o.bloat_boolf)
        if q == 'blot':
            return values(o.blot_boolf)
        if q == 'parts':
            return values(o.bloatless_boolf & o.bloat_boolf)
        if q == '[]':
            return int(o[a[0]])
        if q == 'twin':
            return values(o.twin(a[0]))
        if q == 'patron':
            return values(o.patron_boolf(a[0]))
        if q == 'consul':
            return int(o.consul(a[0]))
        if q == 'distances':
            return ints(o.walsh_distances(a[0]))
        if q == 'is_sharp':
            return bool(o.is_sharp(a[0]))
        if q in ('tt_over', 'spots_over'):
            names = {'list': list, 'set': set, 'tuple': tuple}[a[1]](a[0])
            return ints(o.tt(names)) if q == 'tt_over' else sorted(ints(o.inflated_fullspots(names)))
        if q == 'val':
            return int(o.val(*a[0]))
        if q == 'vals':
            return ints(o.vals(*a[0]))
        if q == 'project':
            return values(o.filtrated_boolf(list(a[0])))
        w = objs[a[0][1]]
        if q == 'hash':
            return hash(o) == hash(w)
        if q == '==':
            return bool(o == w)
        if q == '!=':
            return bool(o != w)
        if q in '&|^':
            return values(o & w if q == '&' else o | w if q == '|' else o ^ w)
        return bool(getattr(o, q)(w))


WORLD = Boolfs()
NOISE = ['str', 'family', 'faction', 'symmetric_spots', 'find_segments', 'blightless_boolf', 'gapless_boolf', 'faction_minrep',
         'fission_walsh_spectra', 'hypersplits', 'refused', 'prefect_boolf', 'wiki', 'sort']


def noise(rng, i, vals):
    return [rng.choice(NOISE), R(i), rng.randrange(9)]


def make_noise(s, objs):
    what, ref, k = s
    o = objs[ref[1]]
    if what == 'str':
        str(o), repr(o)
    elif what == 'family':
        o.ec_family()
    elif what == 'faction':
        if o.valency <= 3:
            o.ec_faction()
    elif what == 'find_segments':
        if o.valency <= 3:
            o.find_segments()
    elif what == 'symmetric_spots':
        if o.valency <= 3:
            o.symmetric_spots
    elif what == 'faction_minrep':
        if o.valency <= 3:
            o.faction_minrep
    elif what == 'wiki':
        o.wiki_table_row()
    elif what == 'sort':
        sorted(objs)
    elif what == 'refused':
        from discretehelpers.boolf import Boolf
        for f in (lambda: o.tt(-1), lambda: o.tt([99]), lambda: o.apply(0, 0, 0, 0, 0, 0, 0), lambda: o & 3, lambda: o.val(2),
                  lambda: Boolf('011'), lambda: Boolf('01', [-1]), lambda: Boolf('0110', [1, 1]), lambda: Boolf(), lambda: o.twin(0),
                  lambda: Boolf(walsh_spectrum=[1, 0, 0, 0]), lambda: Boolf(multi_and=[o, 'x'])):
            try:
                f()
            except Exception:
                pass
    else:
        if o.valency <= 4:
            getattr(o, what)


def make(rng, i, tier):
    return D.draw(rng, WORLD, noise)


def execute(plan):
    return D.execute(plan, WORLD, make_noise)


shrink = D.shrink


def describe(plan):
    return D.describe(plan, WORLD)
