"""Calls on the library written as plain JSON.

An expression is evaluated against an environment of slots (objects made by earlier steps of the same history).
Replacing every slot reference by the expression that made the slot gives the recipe of a value: the recipe builds the
same value from nothing, which is how reference answers are obtained in a fresh process.
"""
import contextlib
import copy
import importlib
import io
import itertools
import operator

import numpy as np

CLASSES = {
    'Binv': 'discretehelpers.binv',
    'Perm': 'discretehelpers.perm',
    'SigPerm': 'discretehelpers.sig_perm',
    'WalshPerm': 'discretehelpers.walsh_perm',
    'SetPart': 'discretehelpers.set_part',
    'SetPartComp': 'discretehelpers.set_part_comp',
    'Boolf': 'discretehelpers.boolf',
    'Segments': 'discretehelpers.boolf.methods.find_segments.a:CollectionOfSegments',
}

_cache = {}


def lookup(name):
    try:
        return _cache[name]
    except KeyError:
        pass
    path = CLASSES.get(name, name)
    if ':' in path:
        mod, attr = path.split(':')
    elif name in CLASSES:
        mod, attr = path, name
    else:
        raise ValueError(name)
    _cache[name] = res = getattr(importlib.import_module(mod), attr)
    return res


OPS = {
    '&': operator.and_, '|': operator.or_, '^': operator.xor, '~': operator.invert, '+': operator.add,
    '*': operator.mul, '**': operator.pow, '==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le,
    '>': operator.gt, '>=': operator.ge, '[]': operator.getitem, 'len': len, 'str': str, 'repr': repr, 'hash': hash,
    'bool': bool, 'list': list, 'sum': sum, 'in': lambda a, b: operator.contains(b, a), 'sorted': sorted,
    'prefix': lambda g, n: list(itertools.islice(g, n)),
}


def ev(e, slots):
    """evaluate; literals may stand bare"""
    if not isinstance(e, list):
        return e
    k = e[0]
    if k == 'ref':
        x = slots[e[1]]
        if isinstance(x, Exception):        # it could not be made: asking it fails as making it did
            raise x.with_traceback(None)
        return x
    if k == 'attr':
        return getattr(ev(e[1], slots), e[2])
    if k == 'call':
        f = getattr(ev(e[1], slots), e[2])
        return f(*[ev(_, slots) for _ in e[3]], **({a: ev(b, slots) for a, b in e[4].items()} if len(e) > 4 else {}))
    if k == 'new' or k == 'fn':
        f = lookup(e[1])
        return f(*[ev(_, slots) for _ in e[2]], **({a: ev(b, slots) for a, b in e[3].items()} if len(e) > 3 else {}))
    if k == 'op':
        return OPS[e[1]](*[ev(_, slots) for _ in e[2:]])
    if k == 'global':
        return lookup(e[1])
    if k == 'list':
        return [ev(_, slots) for _ in e[1:]]
    if k == 'tuple':
        return tuple(ev(_, slots) for _ in e[1:])
    if k == 'set':
        return {ev(_, slots) for _ in e[1:]}
    if k == 'dict':
        return {ev(a, slots): ev(b, slots) for a, b in e[1:]}
    if k == 'slice':
        return slice(*e[1:])
    if k == 'range':
        return range(*e[1:])
    if k == 'array':
        return np.array(e[1])
    if k == 'gen':
        return (ev(_, slots) for _ in e[1:])
    if k == 'copy':
        return copy.deepcopy(ev(e[1], slots))
    if k == 'after':    # an object after a call that changes it (or is refused)
        o = ev(e[1], slots)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                getattr(o, e[2])(*[ev(_, slots) for _ in e[3]])
        except Exception:
            pass
        return o
    if k == 'life':     # an object of one's own: built, changed by calls (some may be refused), then asked
        o = ev(e[1], slots)
        for name, args in e[2]:
            try:
                getattr(o, name)(*[ev(_, slots) for _ in args])
            except Exception:
                pass
        a = getattr(o, e[3])
        return a() if callable(a) else a
    raise ValueError('unknown expression %r' % (k,))


def L(xs):
    return ['list'] + list(xs)


def T(xs):
    return ['tuple'] + list(xs)


def S(xs):
    return ['set'] + list(xs)


def refs(e, out=None):
    if out is None:
        out = []
    if isinstance(e, list):
        if e and e[0] == 'ref':
            out.append(e[1])
        else:
            for x in e:
                refs(x, out)
    elif isinstance(e, dict):
        for x in e.values():
            refs(x, out)
    return out


def resolve(e, recipes):
    """replace slot references by recipes"""
    if isinstance(e, list):
        if e and e[0] == 'ref':
            return recipes[e[1]]
        return [resolve(_, recipes) for _ in e]
    if isinstance(e, dict):
        return {k: resolve(v, recipes) for k, v in e.items()}
    return e


def size(e):
    if isinstance(e, list):
        return 1 + sum(size(_) for _ in e)
    if isinstance(e, dict):
        return sum(size(_) for _ in e.values())
    return 1


def show(e):
    """readable Python-like text"""
    if not isinstance(e, list):
        return repr(e)
    k = e[0]
    if k == 'ref':
        return 'x%d' % e[1]
    if k == 'attr':
        return show(e[1]) + '.' + e[2]

    def args(a, kw):
        return ', '.join([show(_) for _ in a] + ['%s=%s' % (n, show(v)) for n, v in kw.items()])
    if k == 'call':
        return '%s.%s(%s)' % (show(e[1]), e[2], args(e[3], e[4] if len(e) > 4 else {}))
    if k == 'new' or k == 'fn':
        return '%s(%s)' % (e[1].split(':')[-1], args(e[2], e[3] if len(e) > 3 else {}))
    if k == 'op':
        if len(e) == 4:
            if e[1] == '[]':
                return '%s[%s]' % (show(e[2]), show(e[3]))
            return '(%s %s %s)' % (show(e[2]), e[1], show(e[3]))
        return '%s(%s)' % (e[1], show(e[2]))
    if k == 'global':
        return e[1].split(':')[-1]
    if k == 'list':
        return '[' + ', '.join(show(_) for _ in e[1:]) + ']'
    if k == 'tuple':
        return '(' + ', '.join(show(_) for _ in e[1:]) + (',)' if len(e) == 2 else ')')
    if k == 'set':
        return '{' + ', '.join(show(_) for _ in e[1:]) + '}' if len(e) > 1 else 'set()'
    if k == 'dict':
        return '{' + ', '.join(show(a) + ': ' + show(b) for a, b in e[1:]) + '}'
    if k == 'copy':
        return 'deepcopy(%s)' % show(e[1])
    if k == 'after':
        return '(%s after .%s(%s))' % (show(e[1]), e[2], ', '.join(show(_) for _ in e[3]))
    if k == 'life':
        return '(%s; %s; .%s)' % (show(e[1]), '; '.join('.%s(%s)' % (n, ', '.join(show(_) for _ in a)) for n, a in e[2]), e[3])
    return k + repr(tuple(e[1:]))
