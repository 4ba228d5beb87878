"""C17: permutations keep denoting their mapping through any history"""
from itertools import combinations
from math import factorial, lcm

from .. import denote as D
from ..denote import Undefined

ID = 'C17'
LEVEL = 'exploration'
TECHNIQUE = 'seeded histories of products, powers, inverses, questions and interrupted calls over a shared pool, against models of mappings'
NOTE = ('Models: a tuple of images (finite, or one period), a tuple of signed images, the columns of a binary matrix. A finite and '
        'a periodic permutation are not multiplied, as the library refuses that; signed permutations have no powers, cycles or order.')
RUNS = {'quick': 3000, 'thorough': 45000}
RULE = ('a run is a pool of up to 9 permutations of one family (plain finite and periodic, signed, Walsh with periodic), in part built '
        'from each other, and 10 to 50 operations, questions, interrupted calls and looks at the whole pool; non-trivial: one was '
        'built from others and more than five answers were compared; distinct by the history')
TIME_UNIT = 'calls'
MEASURE = 'distinct (mapping, question, arguments) compared'
COMPONENTS = {'real': ['discretehelpers from the working tree, numpy, sympy, factoradic'], 'stub': [],
              'model': ['tuples of images; integer arithmetic']}
ASSUMPTIONS = ['the caller does not change containers handed out by a question']


def R(i):
    return ['ref', i]


def trim(p):
    p = list(p)
    while p and p[-1] == len(p) - 1:
        p.pop()
    return ('F', tuple(p))


def periodic(p):
    """one period, as short as possible; the identity is finite"""
    m = len(p)
    if list(p) == list(range(m)):
        return ('F', ())
    for d in range(1, m + 1):
        if m % d == 0 and all(p[k] == p[k % d] + k - k % d for k in range(m)):
            return ('P', tuple(p[:d]))


def trim_signed(p):
    p = list(p)
    while p and p[-1] == len(p) - 1:
        p.pop()
    return ('S', tuple(p))


def trim_columns(c):
    c = list(c)
    while c and c[-1] == 1 << len(c) - 1 and not any(x >> len(c) - 1 & 1 for x in c[:-1]):
        c.pop()
    return ('W', tuple(c))


def times(cols, x):
    out = 0
    for n, c in enumerate(cols):
        if x >> n & 1:
            out ^= c
    return out ^ (x >> len(cols) << len(cols))


def invertible(cols):
    rows = list(cols)
    rank = 0
    for b in range(len(cols)):
        piv = next((k for k in range(rank, len(rows)) if rows[k] >> b & 1), None)
        if piv is None:
            return False
        rows[rank], rows[piv] = rows[piv], rows[rank]
        for k in range(len(rows)):
            if k != rank and rows[k] >> b & 1:
                rows[k] ^= rows[rank]
        rank += 1
    return True


def transposed(cols):
    n = len(cols)
    return [sum((cols[j] >> i & 1) << j for j in range(n)) for i in range(n)]


def determinant(m):
    """by expansion: slow and sure"""
    if not m:
        return 1
    return sum((-1) ** j * m[0][j] * determinant([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)) if m[0][j])


def image(v, k):
    kind, p = v
    if kind == 'F':
        return p[k] if k < len(p) else k
    if kind == 'P':
        return p[k % len(p)] + k - k % len(p)
    if kind == 'W':
        return times(p, k)
    return p[k] if k < len(p) else k


def span(v):
    kind, p = v
    return 1 << len(p) if kind == 'W' else len(p)


def images(v, n):
    return [image(v, k) for k in range(n)]


def from_images(p, infinite):
    return periodic(p) if infinite else trim(p)


def infinite(v):
    return v[0] in 'PW' and bool(v[1])


def after(v, w):
    """v after w"""
    if v[0] == 'S':
        n = max(len(v[1]), len(w[1]))
        out = []
        for k in range(n):
            x = image(w, k)
            neg = x < 0
            y = image(v, ~x if neg else x)
            out.append(~y if neg else y)
        return trim_signed(out)
    if v[0] == 'W' and w[0] == 'W':
        n = max(len(v[1]), len(w[1]))
        return trim_columns([times(v[1], times(w[1], 1 << k)) for k in range(n)])
    if not v[1]:
        return w
    if not w[1]:
        return v
    if infinite(v) != infinite(w):
        raise Undefined
    n = lcm(span(v), span(w)) if infinite(v) else max(span(v), span(w))
    if n > 200:
        raise Undefined
    return from_images([image(v, image(w, k)) for k in range(n)], infinite(v))


def inverse(v):
    kind, p = v
    if kind == 'S':
        out = [0] * len(p)
        for k, x in enumerate(p):
            out[~x if x < 0 else x] = ~k if x < 0 else k
        return trim_signed(out)
    n = span(v)
    out = [0] * n
    for k in range(n):
        out[image(v, k)] = k
    if kind == 'W':
        return trim_columns([out[1 << k] for k in range(len(p))])
    return from_images(out, kind == 'P')


def neutral(v):
    return ('W', ()) if v[0] == 'W' else ('F', ())


def power(v, e):
    if v[0] == 'S':
        raise Undefined
    out = neutral(v)
    for _ in range(abs(e)):
        out = after(out, v) if out[1] else v
    return inverse(out) if e < 0 else out


def schoute(v):
    """permutation of the numbers with n digits that moves the digits"""
    p = list(v[1])
    n = len(p)
    if v[0] not in 'FS' or n > 4 or n == 0:
        raise Undefined
    out = []
    for x in range(1 << n):
        y = 0
        for k, t in enumerate(p):
            b = x >> k & 1
            y |= (b ^ (t < 0)) << (~t if t < 0 else t)
        out.append(y)
    return periodic(out)


def left_rank(p):
    return sum(sum(p[k] > p[i] for k in range(i)) * factorial(i) for i in range(len(p)))


def unrank(n):
    size = 1
    while factorial(size) <= n:
        size += 1
    counts = []
    for i in range(size):
        counts.append(n // factorial(i) % (i + 1))
    left = list(range(size))
    out = [0] * size
    for i in range(size - 1, -1, -1):
        left.sort(reverse=True)
        out[i] = left.pop(counts[i])
    return out


def right_rank(p):
    n = len(p)
    return sum(sum(p[k] < p[i] for k in range(i + 1, n)) * factorial(n - 1 - i) for i in range(n))


def cycles(v):
    seen, out = set(), []
    for k in range(span(v)):
        if k not in seen:
            c = [k]
            x = image(v, k)
            while x != k:
                c.append(x)
                x = image(v, x)
            seen |= set(c)
            if len(c) > 1:
                out.append(c)
    return out


def turned(cs):
    """cycles in a form that does not depend on where they start"""
    out = []
    for c in cs:
        c = [int(x) for x in c]
        k = c.index(min(c))
        out.append(c[k:] + c[:k])
    return sorted(out)


def shuffled(rng, n):
    p = list(range(n))
    rng.shuffle(p)
    return p


class Perms(D.World):
    """plain finite and periodic permutations"""
    family = 'plain'

    def literal(self, rng):
        u = rng.random()
        n = rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 8])
        p = shuffled(rng, n)
        if u < .25:
            return 'sequence', [p, rng.choice(['list', 'tuple'])]
        if u < .4:
            return 'mapping', [p]
        if u < .55:
            return 'cycles', [[c for c in cycles(('F', tuple(p)))] or [[0]], None]
        if u < .65:
            return 'rank', [rng.randrange(rng.choice([30, 800]))]
        m = rng.choice([2, 3, 4, 4, 5, 6, 6, 8, 9, 12])
        if rng.random() < .4:       # a pattern that repeats inside
            d = rng.choice([d for d in range(1, m + 1) if m % d == 0])
            q = shuffled(rng, d)
            p = [q[k % d] + k - k % d for k in range(m)]
        else:
            p = shuffled(rng, m)
        if u < .85:
            return 'periodic', [p]
        return 'cycles', [cycles(('F', tuple(p))) or [[0]], m]

    def derived(self, rng, vals):
        i, j = rng.randrange(len(vals)), rng.randrange(len(vals))
        u = rng.random()
        if u < .5:
            return 'product', [R(i), R(j)]
        if u < .7:
            return 'inverse', [R(i)]
        if u < .88:
            return 'power', [R(i), rng.randrange(-5, 7)]
        if u < .95:
            return 'again', [R(i)]
        return 'schoute', [R(i)]

    def model(self, op, a, vals):
        a = [vals[x[1]] if isinstance(x, list) and len(x) == 2 and x[0] == 'ref' else x for x in a]
        if op in ('sequence', 'mapping'):
            return trim(a[0])
        if op == 'cycles':
            n = a[1] or max(max(c) for c in a[0]) + 1
            p = list(range(n))
            for c in a[0]:
                for k, x in enumerate(c):
                    p[x] = c[(k + 1) % len(c)]
            return from_images(p, bool(a[1]))
        if op == 'rank':
            return trim(unrank(a[0]))
        if op == 'periodic':
            return periodic(a[0])
        if op == 'product':
            return after(a[0], a[1])
        if op == 'inverse':
            return inverse(a[0])
        if op == 'power':
            return power(a[0], a[1])
        if op == 'schoute':
            return schoute(a[0])
        return self.again(a[0])

    def again(self, v):
        return v

    def build(self, op, a, objs):
        from discretehelpers.a import int_to_perm
        from discretehelpers.perm import Perm
        a = [objs[x[1]] if isinstance(x, list) and len(x) == 2 and x[0] == 'ref' else x for x in a]
        if op == 'sequence':
            return Perm(tuple(a[0]) if a[1] == 'tuple' else list(a[0]))
        if op == 'mapping':
            return Perm(dict(enumerate(a[0])))
        if op == 'cycles':
            return Perm([list(c) for c in a[0]], perilen=a[1]) if a[1] else Perm([list(c) for c in a[0]])
        if op == 'rank':
            return int_to_perm(a[0])
        if op == 'periodic':
            return Perm(list(a[0]), perilen=len(a[0])) if len(a[0]) > 1 else Perm()
        if op == 'product':
            return a[0] * a[1]
        if op == 'inverse':
            return a[0].inverse
        if op == 'power':
            return a[0] ** a[1]
        if op == 'schoute':
            return a[0].schoute_perm
        return Perm(a[0].mapping, a[0].perilen)

    PLAIN = ['images', 'inverse', 'sequence', 'cycles', 'order', 'parity', 'inversions', 'left_rank', 'right_rank', 'blocks',
             'moved', 'mapping', 'length', 'perilen', 'neutral', 'schoute']

    def question(self, rng, vals, i):
        u = rng.random()
        if u < .6:
            return rng.choice(self.PLAIN), []
        if u < .68:
            return '[]', [rng.randrange(60)]
        if u < .76:
            return 'sequence', [rng.choice([6, 8, 12, 24])]
        if u < .82:
            return 'apply', [[rng.randrange(50) for _ in range(rng.choice([6, 8, 12, 24]))]]
        if u < .86:
            return 'cycles', [rng.choice([8, 12, 24])]
        if u < .9:
            return 'power', [rng.randrange(-4, 7)]
        return rng.choice(['==', '!=', 'product', 'hash']), [R(rng.randrange(len(vals)))]

    def core(self, vals, i):
        out = [['images', []]]
        for q in self.PLAIN[1:]:
            if q == 'schoute' and len(vals[i][1]) > 3:
                continue
            try:
                self.said(q, [], vals, i)
                out.append([q, []])
            except Undefined:
                pass
        return out

    def said(self, q, a, vals, i):
        v = vals[i]
        n = span(v)
        if q == 'images':
            return images(v, 40)
        if q == 'inverse':
            return images(inverse(v), 40)
        if q == 'sequence':
            k = a[0] if a else n
            if k < n or v[0] == 'P' and k % n:
                raise Undefined
            return images(v, k)
        if q == 'cycles':
            if not a:
                return turned(cycles(v))
            if not infinite(v) or a[0] % n:
                raise Undefined
            return turned([[x + s for x in c] for s in range(0, a[0], n) for c in cycles(v)])
        if q == 'order':
            return lcm(*[len(c) for c in cycles(v)])
        if q in ('parity', 'inversions'):
            inv = [[x, y] for x, y in combinations(range(n), 2) if image(v, x) > image(v, y)]
            return len(inv) % 2 if q == 'parity' else inv
        if q in ('left_rank', 'right_rank'):
            if infinite(v):
                raise Undefined
            return left_rank(v[1]) if q == 'left_rank' else right_rank(v[1])
        if q == 'blocks':
            return sorted(sorted(c) for c in cycles(v))
        if q in ('moved', 'mapping'):
            d = {k: image(v, k) for k in range(n) if image(v, k) != k}
            return d if q == 'mapping' else sorted(d)
        if q == 'length':
            return n
        if q == 'perilen':
            return n if infinite(v) else None
        if q == 'neutral':
            return not v[1]
        if q == 'schoute':
            s = schoute(v)
            return images(s, 1 << n)
        if q == '[]':
            return image(v, a[0])
        if q == 'apply':
            k = len(a[0])
            if k < n or infinite(v) and k % n:
                raise Undefined
            w = inverse(v)
            return [a[0][image(w, x)] for x in range(k)]
        if q == 'power':
            return images(power(v, a[0]), 40)
        w = vals[a[0][1]]
        if q == 'product':
            return images(after(v, w), 40)
        if q == 'hash':
            if v != w:
                raise Undefined
            return True
        return (v == w) == (q == '==')

    def asked(self, q, a, objs, i):
        o = objs[i]
        if q == 'images':
            return [int(o[k]) for k in range(40)]
        if q == 'inverse':
            return [int(o.inverse[k]) for k in range(40)]
        if q == 'sequence':
            return [int(x) for x in o.sequence(*a)]
        if q == 'cycles':
            return turned(o.cycles_dynamic(a[0]) if a else o.cycles)
        if q == 'inversions':
            return sorted([int(x), int(y)] for x, y in o.inversion_set)
        if q in ('order', 'parity', 'left_rank', 'right_rank', 'length', 'neutral'):
            x = getattr(o, q)
            return bool(x) if q == 'neutral' else int(x)
        if q == 'blocks':
            return sorted(sorted(int(x) for x in b) for b in o.cycle_partition.blocks)
        if q == 'moved':
            return sorted(int(x) for x in o.moved)
        if q == 'mapping':
            return {int(x): int(y) for x, y in o.mapping.items()}
        if q == 'perilen':
            return None if o.perilen is None else int(o.perilen)
        if q == 'schoute':
            n = 1 << int(o.length)
            s = o.schoute_perm
            return [int(s[k]) for k in range(n)]
        if q == '[]':
            return int(o[a[0]])
        if q == 'apply':
            return [int(x) for x in o.apply_on_vector(list(a[0]))]
        if q == 'power':
            p = o ** a[0]
            return [int(p[k]) for k in range(40)]
        w = objs[a[0][1]]
        if q == 'product':
            p = o * w
            return [int(p[k]) for k in range(40)]
        if q == 'hash':
            return hash(o) == hash(w)
        return bool(o == w) if q == '==' else bool(o != w)


class Signed(Perms):
    family = 'signed'

    def literal(self, rng):
        n = rng.choice([1, 2, 3, 3, 4, 5])
        p = shuffled(rng, n)
        signs = [rng.randrange(2) for _ in range(n)]
        u = rng.random()
        if u < .35:
            return 'signed', [[~x if s else x for x, s in zip(p, signs)], rng.choice(['list', 'tuple'])]
        if u < .5:
            return 'pair', [sum(s << k for k, s in enumerate(signs)), left_rank(trim(p)[1])]
        if u < .65:
            return 'values', [signs, p]
        if u < .8:
            return 'keys', [signs, p]
        return 'matrix', [[[(-1 if signs[c] else 1) if p[c] == r else 0 for c in range(n)] for r in range(n)]]

    def derived(self, rng, vals):
        i, j = rng.randrange(len(vals)), rng.randrange(len(vals))
        u = rng.random()
        if u < .6:
            return 'product', [R(i), R(j)]
        if u < .85:
            return 'inverse', [R(i)]
        if u < .95:
            return 'again', [R(i)]
        return 'back', [R(i)]

    def model(self, op, a, vals):
        a = [vals[x[1]] if isinstance(x, list) and len(x) == 2 and x[0] == 'ref' else x for x in a]
        if op == 'signed':
            return trim_signed(a[0])
        if op == 'pair':
            p = unrank(a[1])
            return self.with_values(p, [k for k in range(a[0].bit_length()) if a[0] >> k & 1])
        if op == 'values':
            return self.with_values(a[1], [k for k, s in enumerate(a[0]) if s])
        if op == 'keys':
            return trim_signed([~x if s else x for x, s in zip(a[1], a[0])])
        if op == 'matrix':
            n = len(a[0])
            out = []
            for c in range(n):
                r = next(r for r in range(n) if a[0][r][c])
                out.append(~r if a[0][r][c] < 0 else r)
            return trim_signed(out)
        if op == 'product':
            return after(a[0], a[1])
        if op == 'inverse':
            return inverse(a[0])
        if op == 'back' and (not a[0][1] or len(a[0][1]) > 3):
            raise Undefined
        return a[0]

    def with_values(self, p, negated):
        n = max([len(p)] + [k + 1 for k in negated])
        p = list(p) + list(range(len(p), n))
        return trim_signed([~x if x in negated else x for x in p])

    def build(self, op, a, objs):
        from discretehelpers.sig_perm import SigPerm
        a = [objs[x[1]] if isinstance(x, list) and len(x) == 2 and x[0] == 'ref' else x for x in a]
        if op == 'signed':
            return SigPerm(sequence=tuple(a[0]) if a[1] == 'tuple' else list(a[0]))
        if op == 'pair':
            return SigPerm(pair=(a[0], a[1]))
        if op == 'values':
            return SigPerm(valneg=list(a[0]), perm=list(a[1]))
        if op == 'keys':
            return SigPerm(keyneg=list(a[0]), perm=list(a[1]))
        if op == 'matrix':
            return SigPerm(matrix=[list(r) for r in a[0]])
        if op == 'product':
            return a[0] * a[1]
        if op == 'inverse':
            return a[0].inverse
        if op == 'back':
            return SigPerm(schoute_perm=a[0].schoute_perm)
        return SigPerm(valneg=a[0].binv, perm=a[0].perm)

    PLAIN = ['sequence', 'inverse', 'matrix', 'keyneg_index', 'valneg_index', 'perm_index', 'pair', 'length', 'neutral', 'unsigned',
             'unmoved', 'string', 'schoute']

    def question(self, rng, vals, i):
        u = rng.random()
        if u < .6:
            return rng.choice(self.PLAIN), []
        if u < .68:
            return 'sequence', [rng.choice([5, 6, 8])]
        if u < .74:
            return 'matrix', [rng.choice([5, 6])]
        if u < .8:
            return 'apply', [[rng.randrange(50) for _ in range(rng.choice([5, 6, 8]))]]
        if u < .88:
            return 'digits', [rng.randrange(70)]
        if u < .91:
            return '[]', [rng.randrange(5)]
        return rng.choice(['==', '!=', 'product', 'hash']), [R(rng.randrange(len(vals)))]

    def core(self, vals, i):
        return [[q, []] for q in self.PLAIN if q != 'schoute' or 0 < len(vals[i][1]) < 4]

    def said(self, q, a, vals, i):
        v = vals[i]
        p = list(v[1])
        n = len(p)
        if q == 'sequence' or q == 'matrix':
            k = a[0] if a else n
            if k < n:
                raise Undefined
            s = images(v, k)
            return s if q == 'sequence' else [[(0 if r != (~x if x < 0 else x) else -1 if x < 0 else 1) for x in s] for r in range(k)]
        if q == 'inverse':
            return list(inverse(v)[1])
        naked = [~x if x < 0 else x for x in p]
        if q == 'keyneg_index':
            return sum((x < 0) << k for k, x in enumerate(p))
        if q == 'valneg_index':
            return sum(1 << ~x for x in p if x < 0)
        if q == 'perm_index':
            return left_rank(naked)
        if q == 'pair':
            return [sum(1 << ~x for x in p if x < 0), left_rank(naked)]
        if q == 'length':
            return n
        if q in ('neutral', 'unsigned', 'unmoved'):
            unsigned, unmoved = all(x >= 0 for x in p), naked == list(range(n))
            return {'neutral': unsigned and unmoved, 'unsigned': unsigned, 'unmoved': unmoved}[q]
        if q == 'string':
            return '[' + ', '.join('~%d' % ~x if x < 0 else str(x) for x in p) + ']'
        if q == 'schoute':
            return images(schoute(v), 1 << n)
        if q == 'apply':
            k = len(a[0])
            if k < n:
                raise Undefined
            w = inverse(v)
            return [~a[0][~x] if x < 0 else a[0][x] for x in images(w, k)]
        if q == 'digits':
            k = max(n, a[0].bit_length())
            if k == 0:
                raise Undefined
            out = 0
            for b in range(k):
                x = image(v, b)
                out |= ((a[0] >> b & 1) ^ (x < 0)) << (~x if x < 0 else x)
            return out
        if q == '[]':
            if a[0] >= n:
                raise Undefined
            return p[a[0]]
        w = vals[a[0][1]]
        if q == 'product':
            return list(after(v, w)[1])
        if q == 'hash':
            if v != w:
                raise Undefined
            return True
        return (v == w) == (q == '==')

    def asked(self, q, a, objs, i):
        o = objs[i]
        if q == 'sequence':
            return [int(x) for x in o.sequence(*a)]
        if q == 'matrix':
            return [[int(x) for x in r] for r in o.matrix(*a)]
        if q == 'inverse':
            return [int(x) for x in o.inverse.sequence()]
        if q in ('keyneg_index', 'valneg_index', 'perm_index', 'length'):
            return int(getattr(o, q))
        if q == 'pair':
            return [int(x) for x in o.pair]
        if q in ('neutral', 'unsigned', 'unmoved'):
            return bool(getattr(o, q))
        if q == 'string':
            return o.sequence_string()
        if q == 'apply':
            return [int(x) for x in o.apply_on_vector(list(a[0]))]
        if q == 'digits':
            return int(o.apply_on_natural_number(a[0]))
        if q == 'product':
            return [int(x) for x in (o * objs[a[0][1]]).sequence()]
        return Perms.asked(self, q, a, objs, i)


class Walsh(Perms):
    family = 'walsh'

    def columns(self, rng, n):
        while True:
            c = [rng.randrange(1, 1 << n) for _ in range(n)]
            if invertible(c):
                return c

    def literal(self, rng):
        n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5])
        c = self.columns(rng, n)
        u = rng.random()
        if u < .4:
            return 'vector', [c]
        if u < .6:
            return 'matrix', [[[x >> r & 1 for x in c] for r in range(n)]]
        if u < .75 and n > 1:
            return 'perm', [[times(c, k) for k in range(1 << n)], rng.choice(['list', 'Perm'])]
        if u < .85:
            return 'none', []
        m = rng.choice([2, 4, 4, 8])
        p = shuffled(rng, m)
        return 'periodic', [p]

    def derived(self, rng, vals):
        i, j = rng.randrange(len(vals)), rng.randrange(len(vals))
        u = rng.random()
        if u < .5:
            return 'product', [R(i), R(j)]
        if u < .7:
            return 'inverse', [R(i)]
        if u < .8:
            return 'transpose', [R(i)]
        if u < .92:
            return 'power', [R(i), rng.randrange(-4, 5)]
        return 'again', [R(i)]

    def model(self, op, a, vals):
        b = [vals[x[1]] if isinstance(x, list) and len(x) == 2 and x[0] == 'ref' else x for x in a]
        if op == 'vector':
            return trim_columns(a[0])
        if op == 'matrix':
            n = len(a[0])
            return trim_columns([sum(a[0][r][c] << r for r in range(n)) for c in range(n)])
        if op == 'perm':
            n = len(a[0]).bit_length() - 1
            return trim_columns([a[0][1 << k] for k in range(n)])
        if op == 'none':
            return ('W', ())
        if op == 'transpose':
            if b[0][0] != 'W':
                raise Undefined
            return trim_columns(transposed(b[0][1]))
        if op == 'inverse' and b[0][0] == 'W' and not b[0][1]:
            return ('W', ())
        if op == 'again' and b[0][0] != 'W':
            raise Undefined
        return Perms.model(self, op, a, vals)

    def build(self, op, a, objs):
        import numpy as np
        from discretehelpers.perm import Perm
        from discretehelpers.walsh_perm import WalshPerm
        b = [objs[x[1]] if isinstance(x, list) and len(x) == 2 and x[0] == 'ref' else x for x in a]
        if op == 'vector':
            return WalshPerm(list(a[0]))
        if op == 'matrix':
            return WalshPerm(matrix=np.array(a[0]))
        if op == 'perm':
            return WalshPerm(perm=list(a[0]) if a[1] == 'list' or trim(a[0])[1] == () else Perm(list(a[0]), perilen=len(a[0])))
        if op == 'none':
            return WalshPerm()
        if op == 'transpose':
            return b[0].transpose
        if op == 'again':
            return WalshPerm(list(b[0].vector()))
        return Perms.build(self, op, a, objs)

    PLAIN = ['images', 'inverse', 'sequence', 'cycles', 'order', 'blocks', 'moved', 'mapping', 'perilen', 'neutral', 'vector', 'matrix',
             'transpose_vector', 'determinant', 'degree', 'complement_distance']

    def question(self, rng, vals, i):
        u = rng.random()
        if u < .55:
            return rng.choice(self.PLAIN), []
        if u < .65:
            return rng.choice(['vector', 'matrix', 'transpose_vector', 'complement_pattern']), [rng.choice([4, 5, 6])]
        if u < .7:
            return '[]', [rng.randrange(60)]
        if u < .75:
            return 'sequence', [rng.choice([8, 16, 32])]
        if u < .79:
            return 'apply', [[rng.randrange(50) for _ in range(rng.choice([8, 16]))]]
        if u < .82:
            return 'cycles', [rng.choice([8, 16])]
        if u < .86:
            return 'power', [rng.randrange(-4, 5)]
        return rng.choice(['==', '!=', 'product']), [R(rng.randrange(len(vals)))]

    def said(self, q, a, vals, i):
        v = vals[i]
        c = v[1]
        n = len(c)
        if q in ('vector', 'matrix', 'transpose_vector', 'determinant', 'degree', 'complement_distance', 'complement_pattern'):
            if v[0] != 'W':
                raise Undefined
            k = a[0] if a else n
            if k < n:
                raise Undefined
            c = list(c) + [1 << b for b in range(n, k)]
            mat = [[x >> r & 1 for x in c] for r in range(k)]
            if q == 'vector':
                return c
            if q == 'transpose_vector':
                return transposed(c)
            if q == 'matrix':
                return mat
            if q == 'determinant':
                return determinant(mat)
            if q == 'degree':
                return n
            # how far below the top the preimage of the top is
            back = next(x for x in range(1 << n) if times(v[1], x) == (1 << n) - 1)
            dist = (1 << n) - 1 - back
            return dist if q == 'complement_distance' else (1 << k) - 1 - dist
        if q in ('length', 'parity', 'inversions', 'schoute', 'hash'):
            raise Undefined
        if q == 'perilen' and v[0] == 'W':
            return 1 << n if n else None
        if q == 'sequence' and not a and v[0] == 'W' and not n:
            return []
        if q == 'sequence' and a and v[0] == 'W' and (not n or a[0] < 1 << n):
            raise Undefined
        if q == 'cycles' and a and v[0] == 'W' and (not n or a[0] < 1 << n):
            raise Undefined
        if q in ('==', '!='):
            w = vals[a[0][1]]
            if v[0] != w[0]:
                raise Undefined
        return Perms.said(self, q, a, vals, i)

    def asked(self, q, a, objs, i):
        o = objs[i]
        if q in ('vector', 'transpose_vector'):
            return [int(x) for x in getattr(o, q)(*a)]
        if q == 'matrix':
            return [[int(x) for x in r] for r in o.matrix(*a)]
        if q in ('determinant', 'degree', 'complement_distance'):
            return int(getattr(o, q))
        if q == 'complement_pattern':
            return int(o.complement_pattern(a[0]))
        return Perms.asked(self, q, a, objs, i)


WORLDS = {w.family: w for w in (Perms(), Signed(), Walsh())}


def noise(rng, i, vals):
    return [rng.choice(['str', 'hash', 'refused']), R(i), rng.randrange(9)]


def make_noise(s, objs):
    from discretehelpers.perm import Perm
    what, ref, k = s
    o = objs[ref[1]]
    if what == 'str':
        str(o)
    elif what == 'hash':
        {o: 1}
    else:
        for f in (lambda: o * 3, lambda: Perm([0, 0, 1]), lambda: o.sequence(1), lambda: o * Perm([1, 2, 0]), lambda: o == 3,
                  lambda: o * Perm([1, 0, 2, 4, 3], perilen=5)):
            try:
                f()
            except Exception:
                pass


def make(rng, i, tier):
    family = rng.choice(['plain', 'plain', 'signed', 'walsh', 'walsh'])
    return dict(D.draw(rng, WORLDS[family], noise), family=family)


def execute(plan):
    return D.execute(plan, WORLDS[plan['family']], make_noise)


shrink = D.shrink


def describe(plan):
    return D.describe(plan, WORLDS[plan['family']])
