"""Canonical text of any value the library returns.  By value, never by identity or by set iteration order."""
from fractions import Fraction
import types

import numpy as np


class Unstable(Exception):
    """A value the canonical text cannot be made of (error of the harness, not of the library)."""


ORDERED = False     # whether the order of dictionaries and graphs belongs to the text; never that of sets


def _sort(texts):
    return list(texts) if ORDERED else sorted(texts)


def _num(x):
    return 'i%d' % int(x)


def canon(x, depth=0):
    if depth > 60:
        raise Unstable('value nested too deeply')
    d = depth + 1
    if x is None:
        return 'None'
    t = type(x)
    if t is bool or t is int or isinstance(x, (np.integer, np.bool_)):
        return _num(x)
    if t is str:
        return repr(x)
    if t is float or isinstance(x, np.floating):
        x = float(x)
        return _num(x) if x == int(x) else 'f' + repr(x)
    if t is Fraction:
        return _num(x) if x.denominator == 1 else 'q%d/%d' % (x.numerator, x.denominator)
    if t is tuple:
        return '(' + ','.join(canon(_, d) for _ in x) + ')'
    if t is list:
        return '[' + ','.join(canon(_, d) for _ in x) + ']'
    if t is set or t is frozenset:
        return '{' + ','.join(sorted(canon(_, d) for _ in x)) + '}'
    if t is range:
        return '[' + ','.join(_num(_) for _ in x) + ']'
    if isinstance(x, np.ndarray):
        return 'A' + canon(x.tolist(), d)
    name = t.__name__
    mod = t.__module__ or ''
    if isinstance(x, BaseException):
        return 'raised ' + name
    if mod.startswith('discretehelpers'):
        return lib_object(x, name, d)
    if isinstance(x, dict) or name in ('bidict', 'frozenbidict', 'OrderedDict', 'Counter', 'mappingproxy', 'dict_proxy'):
        return '{' + ','.join(_sort(canon(k, d) + ':' + canon(v, d) for k, v in x.items())) + '}'
    if name in ('dict_keys', 'dict_values', 'dict_items'):
        return '[' + ','.join(_sort(canon(_, d) for _ in x)) + ']'
    if isinstance(x, (types.GeneratorType, map, zip, filter)) or mod == 'itertools':
        return '[' + ','.join(canon(_, d) for _ in x) + ']'
    if mod.startswith('networkx'):
        return 'G{' + ','.join(_sort(canon(_, d) for _ in x.nodes)) + '|' + ','.join(
            _sort(canon(tuple(_), d) for _ in x.edges)) + '}'
    if mod.startswith('sympy'):
        try:
            return canon(x.tolist(), d)
        except AttributeError:
            return 'S' + str(x)
    if isinstance(x, type):
        return 'class ' + name
    if isinstance(x, (types.FunctionType, types.MethodType, types.BuiltinFunctionType)):
        return 'callable'
    raise Unstable('no canonical text for %s.%s' % (mod, name))


def bits(binv):
    v = getattr(binv, 'vector', None)
    if v is None:
        v = [binv[i] for i in range(len(binv))]
    return ''.join('1' if _ else '0' for _ in v)


def lib_object(x, name, d):
    if name == 'Binv':
        return 'Binv<' + bits(x) + '>'
    if name == 'Boolf':
        return 'Boolf<' + bits(x.root) + ' ' + canon(list(x.atomvals), d) + '>'
    if name == 'SetPart':
        dom = x.domain if isinstance(x.domain, str) else canon(set(x.domain), d)
        labels = '' if not x.block_labels else ' ' + canon(dict(x.block_labels), d)
        return 'SetPart<' + canon([list(_) for _ in x.blocks], d) + ' ' + dom + labels + '>'
    if name == 'SetPartComp':
        return 'SetPartComp<' + lib_object(x.equal_part, 'SetPart', d) + ' ' + canon(set(x.comp_pairs), d) + '>'
    if name == 'Perm':
        return 'Perm<' + canon(dict(x.mapping), d) + ' ' + canon(x.perilen, d) + '>'
    if name == 'SigPerm':
        return 'SigPerm<' + canon(x.perm, d) + ' ' + canon(x.binv, d) + '>'
    if name == 'WalshPerm':
        return 'WalshPerm<' + canon(x.vector(), d) + '>'
    if name == 'CollectionOfSegments':
        return 'Segments<' + canon({k: set(v) for k, v in x.segments.items() if v}, d) + '>'
    if name == 'Segment':
        return 'Segment<' + canon(tuple(x.vector), d) + '>'
    return name + '<' + canon(public(x), d) + '>'


def public(x):
    return {k: v for k, v in vars(x).items() if not k.startswith('_')}
