"""What can be asked of the library's objects, and how objects are made.  All in terms of the public interface."""
import copy

from .expr import L, T, S

# ------------------------------------------------------------------------------------------------ questions, no arguments

BOOLF_ATTRS = '''
adicity atom_to_crossing_atoms atomvals atomvals_integer atomvals_sierpinski blight blight_boolf blightless_atomkeys
blightless_boolf bloat bloat_boolf bloatless_atomkeys_deflated bloatless_atomkeys_undeflated bloatless_boolf blot
blot_boolf bundle_grid_partitions bundle_overlap_counts bundles complement faction_minrep family_is_self_complementary
family_malerep family_minrep filtrated_pairs fission_walsh_spectra fission_walsh_spectra_abs
fission_walsh_spectra_abs_zipped fission_walsh_spectra_layered fission_walsh_spectra_layered_abs
fission_walsh_spectra_zipped fissions fissions_layered fissions_weight fissions_weight_layered fullspot_atoms
fullspot_weights fullspotlinks_by_weight fullspots fullspots_by_weight gapless_boolf hypersplits hypersplits_detailed
hypersplits_potential_cores is_blightless is_bloatless is_blotless is_bundle is_constant is_inflated is_linear is_male
is_odd is_odious is_root is_symmetric is_ugly layered_fullspots layered_tt layered_weight number_of_distinct_splits
number_of_fullspotlinks onesided_atomkeys onesided_is_universe perm_symmetry_partition prefect_boolf
prefect_leader_and_quadrant prefect_tt prefect_walsh_and_oddness quadrant reverse root root_boolf
split_pairs_with_3_overlaps splits splits_equal splits_equality_blocks splits_onesided splits_overlap_counts
splits_preferred_side spread_vector symmetric_spots valency weight_fract zhe
'''.split()

BOOLF_HEAVY_ATTRS = ['clan_minrep']

BINV_ATTRS = 'changes complement exposet intval length pretty required_length reverse set_part string vector weight'.split()
PERM_ATTRS = 'cycle_partition cycles inverse inversion_set left_rank length mapping moved neutral order parity perilen ' \
             'right_rank schoute_perm'.split()
SIGPERM_ATTRS = 'binv inverse keyneg_index length neutral pair perm perm_index sequence_minimal unmoved unsigned ' \
                'valneg_index schoute_perm'.split()
WALSHPERM_ATTRS = 'complement_distance cycles degree determinant inverse mapping matrix_minimal moved neutral order ' \
                  'perilen transpose cycle_partition'.split()
SETPART_ATTRS = 'blocks canonical_blocks_with_singletons domain intval length non_singletons pairs singletons trivial ' \
                'block_labels'.split()


def q(*e):
    return list(e)


X = ['ref', 0]   # stands for the object asked; replaced by the caller


def sub(e, x):
    if e is X or e == X:
        return x
    if isinstance(e, list):
        return [sub(_, x) for _ in e]
    if isinstance(e, dict):
        return {k: sub(v, x) for k, v in e.items()}
    return e


def attr(n):
    return ['attr', X, n]


def call(n, *a, **kw):
    return ['call', X, n, list(a), kw] if kw else ['call', X, n, list(a)]


def op(o, *a):
    return ['op', o, X] + list(a)


def _arity(rng, hi=4):
    if rng.random() < .6:
        return rng.hint
    return rng.choice([1, 2, 2, 3, 3, 3, 3, 4])


def _atom(rng):
    return rng.randrange(0, max(1, rng.hint) if rng.random() < .8 else 4)


def _two(rng):
    if rng.hint >= 2 and rng.random() < .85:
        return rng.sample(range(rng.hint), 2)
    return [_atom(rng), _atom(rng)]


def _keys(rng, lo=0, hi=2):
    n = max(1, rng.hint)
    return L(sorted(rng.sample(range(n), min(n, rng.randrange(lo, hi + 1)))))


def names_of(e):
    """the atoms that a recipe for a Boolean function writes out"""
    if isinstance(e, dict):
        e = list(e.values())
    if not isinstance(e, list):
        return set()
    if e[:2] == ['new', 'Boolf']:
        kw = e[3] if len(e) > 3 else {}
        named = kw.get('atomvals') or (e[2][1] if len(e[2]) > 1 else None)
        if isinstance(named, list) and named[:1] == ['list']:
            return {_ for _ in named[1:] if isinstance(_, int)}
        if not any(isinstance(_, list) and _ and _[0] in ('attr', 'call') for _ in e[2]):
            return set(range(min(4, hint_of(e))))
    return set().union(*map(names_of, e))


def hint_of(e):
    """number of atoms of the object a recipe makes, roughly"""
    if isinstance(e, dict):
        e = list(e.values())
    if not isinstance(e, list):
        return 0
    if e and e[0] == 'new' and e[1] == 'Boolf':
        a, kw = e[2], e[3] if len(e) > 3 else {}
        if a and isinstance(a[0], str):
            return max(1, len(a[0]).bit_length() - 1)
        if a and isinstance(a[0], list) and a[0][0] == 'list':
            return max(1, (len(a[0]) - 1).bit_length() - 1)
        if 'arity' in kw:
            return kw['arity']
        if 'atomvals' in kw:
            return len(kw['atomvals']) - 1
        return 2
    return max([hint_of(_) for _ in e] + [0])


# method name -> function of the random generator giving an argument list (None: leave the argument out)
BOOLF_CALLS = {
    'acute_quadrant': lambda r: r.choice([[], [_arity(r)]]),
    'atom_border_in_atom_side': lambda r: _two(r),
    'atom_pair_crossing': lambda r: _two(r),
    'atom_pair_intersect': lambda r: _two(r),
    'atom_pair_subset': lambda r: _two(r),
    'blightless_spotint': lambda r: [r.randrange(1 << r.hint)],
    'bloatless_spotint': lambda r: [r.randrange(1 << r.hint)],
    'bundles_pretty': lambda r: r.choice([[], [_names(r)]]),
    'consul': lambda r: r.choice([[], [_arity(r)]]),
    'consul_slow': lambda r: [r.choice([2, 3])],
    'consul_weight': lambda r: [_arity(r)],
    'diagonal_adjacency_matrix': lambda r: [L([r.random() < .5 for _ in range(r.hint + r.randrange(2))])],
    'ec_family': lambda r: [],
    'ec_family_splinters': lambda r: [],
    'ec_faction': lambda r: r.choice([[], [_arity(r)], [_arity(r), True]]),
    'filtrated_boolf': lambda r: [_keys(r)],
    'filtrated_pair': lambda r: _two(r),
    'filtrated_pairs_pretty': lambda r: r.choice([[], [_names(r)]]),
    'find_segments': lambda r: [],
    'fullspot_atoms_pretty': lambda r: r.choice([[], [_names(r)]]),
    'hasse_matrix_coordinates': lambda r: r.choice([[], [_arity(r)]]),
    'hyperfission': lambda r: [_keys(r)],
    'hyperfission_walsh_spectra': lambda r: [_keys(r)],
    'hyperfission_walsh_spectra_abs': lambda r: [_keys(r)],
    'hyperfission_walsh_spectra_labeled': lambda r: [_keys(r)],
    'hyperfission_walsh_spectra_layered_abs': lambda r: [_keys(r)],
    'hyperfission_walsh_spectra_zipped': lambda r: [_keys(r)],
    'hypersplits_potential_cores_pretty': lambda r: r.choice([[], [None, True], [_names(r)]]),
    'hypersplits_pretty': lambda r: r.choice([[], [None, True], [_names(r)]]),
    'inflated_fullspots': lambda r: [L(range(_arity(r)))],
    'is_acute': lambda r: [_arity(r)],
    'is_noble': lambda r: r.choice([[], [_arity(r)]]),
    'is_rough': lambda r: [_arity(r)],
    'is_rude': lambda r: [_arity(r)],
    'is_sharp': lambda r: [_arity(r)],
    'is_solid': lambda r: [_arity(r)],
    'leader': lambda r: r.choice([[], [_arity(r)]]),
    'noble_quadrant': lambda r: r.choice([[], [_arity(r)]]),
    'octant': lambda r: [_arity(r)],
    'patron_boolf': lambda r: [_arity(r)],
    'patron_index': lambda r: [_arity(r)],
    'patron_int': lambda r: [_arity(r)],
    'patron_king_index_and_quadrant': lambda r: [_arity(r)],
    'patron_quadrant': lambda r: [_arity(r)],
    'patron_royal': lambda r: [_arity(r)],
    'splits_combined': lambda r: [_keys(r, 1)],
    'tt': lambda r: r.choice([[], [_arity(r)], [_over(r)], [_over(r)], [_over(r)], [L(r.sample(range(5), r.randrange(2, 5)))]]),
    'twin': lambda r: r.choice([[], [_arity(r)]]),
    'val': lambda r: [r.randrange(2) for _ in range(_arity(r))],
    'vals': lambda r: _signed_perm(r),
    'apply': lambda r: _signed_perm(r),
    'apply_sigperm': lambda r: [L(_signed_perm(r, 4))],
    'value_fract': lambda r: [],
    'walsh_distances': lambda r: r.choice([[], [_arity(r)]]),
    'walsh_spectrum': lambda r: r.choice([[], [_arity(r)]]),
    'walsh_spectrum_abs': lambda r: r.choice([[], [_arity(r)]]),
    'walsh_spectrum_abs_layered': lambda r: r.choice([[], [_arity(r)]]),
    'walsh_spectrum_layered': lambda r: r.choice([[], [_arity(r)]]),
    'weight_quadrant': lambda r: r.choice([[], [_arity(r)]]),
    'wiki_table_row': lambda r: [r.choice(['abc', 'x', ''])],
}

BOOLF_HEAVY_CALLS = {
    'ec_clan': lambda r: r.choice([[], [3]]),
    'ec_clan_partitioned': lambda r: [],
    'ec_clan_matrix': lambda r: [],
    'ec_clan_matrix_wiki': lambda r: [],
    'ec_clan_factions': lambda r: [3],
}


def _names(r):
    return L(r.sample('pqrstuvw', r.hint))


def _over(r):
    """names of atoms that include those of the function"""
    names = sorted(set(r.names or range(r.hint)))
    spare = [_ for _ in range(6) if _ not in names]
    out = names + r.sample(spare, r.randrange(0, max(1, min(len(spare) + 1, 6 - len(names)))))
    if r.random() < .5:
        r.shuffle(out)
    else:
        out.sort()
    return r.choice([L, L, T, S])(out)


def _signed_perm(r, n=None):
    n = n or _arity(r)
    p = list(range(n))
    r.shuffle(p)
    return [~_ if r.random() < .3 else _ for _ in p]


def boolf_question(rng, x, other=None, heavy=False):
    u = rng.random()
    if heavy and u < .04:
        if rng.random() < .3:
            return ['attr', x, rng.choice(BOOLF_HEAVY_ATTRS)]
        n = rng.choice(sorted(BOOLF_HEAVY_CALLS))
        return ['call', x, n, BOOLF_HEAVY_CALLS[n](rng)]
    if u < .5:
        return ['attr', x, rng.choice(BOOLF_ATTRS)]
    if u < .9:
        n = rng.choice(sorted(BOOLF_CALLS))
        return ['call', x, n, BOOLF_CALLS[n](rng)]
    if u < .95 or other is None:
        return rng.choice([['op', 'str', x], ['op', 'repr', x], ['op', '[]', x, rng.randrange(16)], ['op', '~', x]])
    return rng.choice([
        ['op', rng.choice('&|^'), x, other], ['op', rng.choice(['<', '<=', '>', '>=', '==', '!=']), x, other],
        ['call', x, rng.choice(['bitwise_lt', 'bitwise_le', 'bitwise_gt', 'bitwise_ge']), [other]],
    ])


def binv_question(rng, x, other=None, heavy=False):
    u = rng.random()
    if u < .6:
        return ['attr', x, rng.choice(BINV_ATTRS)]
    if u < .85 or other is None:
        return rng.choice([
            ['op', 'str', x], ['op', 'len', x], ['op', 'sum', x], ['op', '~', x], ['op', '[]', x, rng.randrange(6)],
            ['call', x, 'flip_bit', [rng.randrange(6)]], ['call', x, 'has_index', [rng.randrange(9)]],
            ['op', '[]', x, ['slice', 1, 4]], ['new', 'Binv', [x]]])
    return rng.choice([['op', rng.choice(['&', '|', '^', '+']), x, other],
                       ['op', rng.choice(['<', '<=', '>', '>=', '==', '!=']), x, other],
                       ['call', x, 'bitwise_smaller', [other]]])


def perm_question(rng, x, other=None, heavy=False):
    u = rng.random()
    if u < .55:
        return ['attr', x, rng.choice(PERM_ATTRS)]
    if u < .85 or other is None:
        return rng.choice([
            ['op', 'str', x], ['op', '[]', x, rng.randrange(12)], ['call', x, 'sequence', []],
            ['call', x, 'sequence', [rng.choice([4, 6, 8, 12])]], ['op', '**', x, rng.randrange(-4, 5)],
            ['call', x, 'apply_on_vector', [rng.choice([L(range(10, 18)), T('abcdefgh')])]],
            ['call', x, 'cycles_dynamic', rng.choice([[], [12], [8]])], ['op', '[]', x, ['slice', None, 6]]])
    return rng.choice([['op', '*', x, other], ['op', '*', other, x], ['op', '==', x, other]])


def sigperm_question(rng, x, other=None, heavy=False):
    u = rng.random()
    if u < .55:
        return ['attr', x, rng.choice(SIGPERM_ATTRS)]
    if u < .85 or other is None:
        return rng.choice([
            ['op', 'str', x], ['op', '[]', x, rng.randrange(3)], ['call', x, 'sequence', rng.choice([[], [5], [6]])],
            ['call', x, 'sequence_string', rng.choice([[], [5, True]])], ['call', x, 'matrix', rng.choice([[], [5]])],
            ['call', x, 'apply_on_vector', [L(range(10, 16))]], ['call', x, 'apply_on_natural_number', [rng.randrange(40)]]])
    return rng.choice([['op', '*', x, other], ['op', '*', other, x], ['op', '==', x, other]])


def walshperm_question(rng, x, other=None, heavy=False):
    u = rng.random()
    if u < .55:
        return ['attr', x, rng.choice(WALSHPERM_ATTRS)]
    if u < .85 or other is None:
        return rng.choice([
            ['op', 'str', x], ['op', '[]', x, rng.randrange(20)], ['call', x, 'sequence', []],
            ['call', x, 'sequence', [], {'degree': rng.randrange(2, 5)}], ['call', x, 'sequence', [rng.choice([4, 8, 16])]],
            ['call', x, 'matrix', rng.choice([[], [4]])], ['call', x, 'vector', rng.choice([[], [4]])],
            ['call', x, 'transpose_vector', rng.choice([[], [4]])], ['call', x, 'complement_pattern', [rng.randrange(2, 5)]],
            ['call', x, 'cycles_dynamic', [], {'degree': rng.randrange(2, 5)}], ['op', '**', x, rng.randrange(-3, 4)],
            ['call', x, 'apply_on_vector', [L(range(16))]]])
    return rng.choice([['op', '*', x, other], ['op', '*', other, x], ['op', '==', x, other]])


def setpart_question(rng, x, other=None, heavy=False):
    u = rng.random()
    if u < .5:
        return ['attr', x, rng.choice(SETPART_ATTRS)]
    if u < .8 or other is None:
        return rng.choice([
            ['op', 'str', x], ['call', x, 'blocks_with_singletons', rng.choice([[], [12], [20]])],
            ['call', x, 'element_to_block', [rng.randrange(9)]], ['call', x, 'element_in_domain', [rng.randrange(-2, 9)]],
            ['call', x, 'pair_in_same_block', [rng.randrange(9), rng.randrange(9)]],
            ['call', x, 'non_singleton_to_block_index_or_none', [rng.randrange(9)]],
            ['call', x, 'get_label_from_element', [rng.randrange(9)]]])
    return rng.choice([['call', x, 'meet', [other]], ['call', x, 'join', [other]],
                       ['op', rng.choice(['==', '<=', '<']), x, other]])


QUESTION = {'Boolf': boolf_question, 'Binv': binv_question, 'Perm': perm_question, 'SigPerm': sigperm_question,
            'WalshPerm': walshperm_question, 'SetPart': setpart_question}


def all_questions(kind, rng, per_call=2, heavy=False):
    """the whole catalogue for one object, as expressions over X"""
    out = []

    def add(e):
        if e not in out:
            out.append(e)
    if kind == 'Boolf':
        for n in BOOLF_ATTRS + (BOOLF_HEAVY_ATTRS if heavy else []):
            add(attr(n))
        calls = dict(BOOLF_CALLS)
        if heavy:
            calls.update(BOOLF_HEAVY_CALLS)
        for n in sorted(calls):
            for _ in range(per_call):
                add(['call', X, n, calls[n](rng)])
        for o in ('str', 'repr', 'hash'):
            add(op(o))
        for i in (0, 1, 2, 5, 7, 12):
            add(op('[]', i))
        return out
    attrs = {'Binv': BINV_ATTRS, 'Perm': PERM_ATTRS, 'SigPerm': SIGPERM_ATTRS, 'WalshPerm': WALSHPERM_ATTRS,
             'SetPart': SETPART_ATTRS}[kind]
    for n in attrs:
        add(attr(n))
    for _ in range(40):
        e = QUESTION[kind](rng, X)
        if e[0] != 'attr':
            add(e)
    return out


# ------------------------------------------------------------------------------------------------ making objects

def bits(rng, n):
    style = rng.random()
    if style < .7:
        return [rng.randrange(2) for _ in range(n)]
    p = rng.choice([.1, .25, .75, .9])
    return [int(rng.random() < p) for _ in range(n)]


def atoms(rng, n, hi=5):
    a = rng.sample(range(max(hi, n)), n)
    if rng.random() < .7:
        a.sort()
    return a


def structured_tt(rng, v):
    """truth tables with symmetries, equal or disjoint atoms, linear parts: the special cases of the geometry code"""
    n = 1 << v
    k = rng.randrange(6)
    if k == 0:      # linear
        m, c = rng.randrange(n), rng.randrange(2)
        return [(bin(i & m).count('1') + c) % 2 for i in range(n)]
    if k == 1:      # symmetric
        w = [rng.randrange(2) for _ in range(v + 1)]
        return [w[bin(i).count('1')] for i in range(n)]
    if k == 2:      # product of two parts
        a = [rng.randrange(2) for _ in range(n)]
        m = rng.randrange(n)
        return [a[i & m] & a[i & ~m & (n - 1)] for i in range(n)]
    if k == 3:      # x equals y and something
        a = [rng.randrange(2) for _ in range(n)]
        return [a[i] if (i & 1) == (i >> 1 & 1) else 0 for i in range(n)]
    if k == 4:      # monotone-ish: up-set of few points
        pts = [rng.randrange(n) for _ in range(rng.randrange(1, 3))]
        return [int(any(i & p == p for p in pts)) for i in range(n)]
    pts = set(rng.randrange(n) for _ in range(rng.randrange(1, 4)))
    return [int(i in pts) for i in range(n)]


def tt_bits(rng, v):
    return structured_tt(rng, v) if rng.random() < .4 else bits(rng, 1 << v)


def spectrum(t):
    n = len(t)
    return [sum(-t[i] if bin(i & j).count('1') % 2 else t[i] for i in range(n)) for j in range(n)]


def boolf_literal(rng, vmax=4):
    v = rng.choice([1, 2, 2, 3, 3, 3, 3, 4][:6 + 2 * (vmax > 3)])
    t = tt_bits(rng, v)
    u = rng.random()
    if u < .35:
        return ['new', 'Boolf', [''.join(map(str, t))]]
    if u < .55:
        return ['new', 'Boolf', [L(t), L(atoms(rng, v))]]
    if u < .65:
        return ['new', 'Boolf', [], {'fullspots': rng.choice([L, S])([i for i, x in enumerate(t) if x]), 'arity': v}]
    if u < .75:
        return ['new', 'Boolf', [], {'fullspots': L([i for i, x in enumerate(t) if x]), 'atomvals': L(atoms(rng, v))}]
    if u < .78:
        return ['new', 'Boolf', [], {'walsh_spectrum': rng.choice([L, T])(spectrum(t))}]
    if u < .82:
        return ['new', 'Boolf', [], {'zhe': rng.randrange(1 << min(1 << v, 10))}]
    if u < .87:
        return ['new', 'Boolf', [sum(b << i for i, b in enumerate(t))], {'arity': v}]
    if u < .9:
        return ['new', 'Boolf', [], {'atom': rng.choice([0, 1, 2, 3, -1, -3])}]
    if u < .93:
        return ['new', 'Boolf', [], {rng.choice(['multi_and', 'multi_or', 'multi_xor', 'multi_xand']):
                                     L([rng.randrange(-3, 4) for _ in range(rng.randrange(0, 4))])}]
    if u < .96:
        args = rng.choice([[L(t)], [L(t), L(atoms(rng, v))], [L(t), L(sorted(atoms(rng, v)))]])
        return ['new', 'Boolf', args, {'skip_deflation': True}]
    if u < .98:
        return ['new', 'Boolf', [rng.random() < .5]]
    return ['global', 'discretehelpers.boolf.examples:' + rng.choice(EXAMPLES)]


EXAMPLES = ['medusa', 'foravo']


def binv_literal(rng):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 8, 12, 16])
    t = bits(rng, n)
    u = rng.random()
    if u < .5:
        return ['new', 'Binv', [rng.choice([L(t), ''.join(map(str, t)), T(t)])]]
    if u < .7:
        return ['new', 'Binv', [], {'intval': sum(b << i for i, b in enumerate(t)), 'length': max(n, 1)}]
    if u < .8:
        return ['new', 'Binv', [], {'intval': rng.randrange(1, 300)}]
    ex = [i for i, b in enumerate(t) if b]
    return ['new', 'Binv', [], {'exposet': rng.choice([L, S, T])(ex), 'length': max(n, 1)}]


def perm_literal(rng):
    u = rng.random()
    n = rng.choice([0, 2, 3, 4, 4, 5, 6])
    p = list(range(n))
    rng.shuffle(p)
    if u < .4:
        return ['new', 'Perm', [L(p)]]
    if u < .6:
        cyc = []
        rest = rng.sample(range(8), 8)
        while rest and len(cyc) < 3:
            k = rng.randrange(2, 5)
            c, rest = rest[:k], rest[k:]
            cyc.append(L(c))
        return ['new', 'Perm', [L(cyc)]]
    if u < .7:
        return ['new', 'Perm', [['dict'] + [[a, b] for a, b in enumerate(p)]]]
    if u < .8:
        return ['fn', 'discretehelpers.a:int_to_perm', [rng.randrange(720)]]
    m = rng.choice([3, 4, 6, 8])
    p = list(range(m))
    rng.shuffle(p)
    return ['new', 'Perm', [L(p)], {'perilen': m}]


def sigperm_literal(rng):
    n = rng.choice([1, 2, 3, 3, 4])
    p = _signed_perm(rng, n)
    u = rng.random()
    if u < .4:
        return ['new', 'SigPerm', [], {'sequence': L(p)}]
    if u < .6:
        return ['new', 'SigPerm', [], {'pair': T([rng.randrange(8), rng.randrange(24)])}]
    q2 = list(range(n))
    rng.shuffle(q2)
    neg = rng.choice([L([rng.randrange(2) for _ in range(n)]), S(rng.sample(range(n), rng.randrange(n + 1)) or [0])])
    return ['new', 'SigPerm', [], {rng.choice(['valneg', 'keyneg']): neg, 'perm': L(q2)}]


def walshperm_literal(rng):
    d = rng.choice([1, 2, 2, 3, 3, 3, 4])
    m = [[int(i == j) for j in range(d)] for i in range(d)]
    for _ in range(rng.randrange(0, 8)):
        i, j = rng.randrange(d), rng.randrange(d)
        if i != j:
            if rng.random() < .7:
                m[i] = [a ^ b for a, b in zip(m[i], m[j])]
            else:
                m[i], m[j] = m[j], m[i]
    vec = [sum(m[i][j] << i for i in range(d)) for j in range(d)]
    if rng.random() < .6:
        return ['new', 'WalshPerm', [L(vec)]]
    return ['new', 'WalshPerm', [], {'matrix': ['array', m]}]


def setpart_literal(rng, labels=True):
    dom = rng.choice(['N', 'N', 'Z', 'F'])
    lo = -4 if dom == 'Z' else 0
    els = rng.sample(range(lo, 10), rng.randrange(0, 9))
    blocks = []
    while els:
        k = rng.randrange(1, 5)
        blocks.append(L(els[:k]))
        els = els[k:]
    d = rng.choice([L, S, S, T])(range(10)) if dom == 'F' else dom
    kw = {'domain': d}
    if labels and blocks and rng.random() < .25:
        names = rng.sample(['a', 'b', 'c', 3], min(len(blocks), rng.randrange(1, 4)))
        kw['block_labels'] = ['dict'] + [[T(sorted(b[1:])), name] for b, name in zip(blocks, names)]
    return ['new', 'SetPart', [L(blocks)], kw]


LITERAL = {'Boolf': boolf_literal, 'Binv': binv_literal, 'Perm': perm_literal, 'SigPerm': sigperm_literal,
           'WalshPerm': walshperm_literal, 'SetPart': setpart_literal}
KINDS = ['Boolf', 'Binv', 'Perm', 'SigPerm', 'WalshPerm', 'SetPart']


# ------------------------------------------------------------------------------------------------ helper functions

def _ints(r, n, lo=-4, hi=9):
    return L([r.randrange(lo, hi) for _ in range(n)])


def _perm(r, n):
    return L(r.sample(range(n), n))


def _rows(r, high, wide, hi=3):
    return [[r.randrange(hi) for _ in range(wide)] for _ in range(high)]


def _pairs(r, n):
    return L([T([r.randrange(6), r.randrange(6)]) for _ in range(n)])


def _tt(r, v=None):
    v = r.choice([1, 2, 2, 3]) if v is None else v
    return L(bits(r, 1 << v))


def _zip(r):
    n = r.randrange(2, 8)
    pat = [0] + [r.randrange(3) for _ in range(n - 1)]
    return n, pat


def _zip_together(r):
    n, pat = _zip(r)
    k = max(pat) + 1
    return [L([L([10 * i + j for j in range(pat.count(i))]) for i in range(k)]), L(pat)]


A = 'discretehelpers.a:'
BA = 'discretehelpers.boolf.a:'
PA = 'discretehelpers.perm.a:'
SA = 'discretehelpers.sig_perm.a:'
WA = 'discretehelpers.walsh_perm.a:'

HELPERS = {
    A + 'vector_zip_apart': lambda r: (lambda n, p: [_ints(r, n), L(p)])(*_zip(r)),
    A + 'vector_zip_together': _zip_together,
    A + 'sort_together': lambda r: (lambda n: [_ints(r, n), _ints(r, n)])(r.randrange(1, 6)),
    A + 'sort_rows_together': lambda r: [['array', _rows(r, 4, 3)], ['array', _rows(r, 4, 2)]],
    A + 'sort_cols_together': lambda r: [['array', _rows(r, 3, 4)], ['array', _rows(r, 2, 4)]],
    A + 'swap_matrix_rows': lambda r: [['array', _rows(r, 4, 3)], r.randrange(4), r.randrange(4)],
    A + 'int_to_sierpinski_row': lambda r: [r.randrange(40)],
    A + 'make_atompatterns': lambda r: [r.choice([2, 3, L([0, 1, 2]), L([2, 0, 1])])],
    A + 'logic_negate_vector': lambda r: (lambda n: [_ints(r, n), L(bits(r, n))])(r.randrange(1, 6)),
    A + 'logic_abs_vector': lambda r: [_ints(r, 4)],
    A + 'logic_str_vector': lambda r: [_ints(r, 4)],
    A + 'logic_abs_increase_vector': lambda r: [_ints(r, 4), _ints(r, 4, 0, 5)],
    A + 'key_tuples': lambda r: [r.choice([L([1, L([2, 3]), L([L([4]), 5])]), ['dict', [0, L([1, 2])], [1, ['dict', [7, 8]]]]])],
    A + 'sorted_colex': lambda r: [L([_ints(r, 3, 0, 4) for _ in range(4)])],
    A + 'subdict': lambda r: r.choice([
        [['dict', [0, 1], [2, 3], [4, 5]], L([r.randrange(6)]), ['dict', [r.randrange(6), 9]]],
        [['dict'] + [[k, 1] for k in r.sample('abcdefg', 5)], L([r.choice('abc')]), ['dict', [r.choice('abcx'), 9]]]]),
    A + 'multigrade_bitwise': lambda r: [_ints(r, 4, 0, 32), r.choice(['and', 'or', 'xor'])],
    A + 'is_integer_matrix': lambda r: [L([_ints(r, 3) for _ in range(3)])],
    A + 'integer_determinant': lambda r: (lambda n: [L([_ints(r, n) for _ in range(n)])])(r.randrange(1, 5)),
    A + 'inventory_dict': lambda r: [r.choice([_ints(r, 6, 0, 3), L([r.choice('abcd') for _ in range(6)]), ['dict', [0, 5], [1, 5], [2, 6]]])],
    A + 'inventory_partition': lambda r: [r.choice([_ints(r, 6, 0, 3), L([r.choice('abcd') for _ in range(6)]), ['dict', [0, 5], [1, 5], [2, 6]]])],
    A + 'prime_factors': lambda r: [r.randrange(2, 200)],
    A + 'rev_colex_perms': lambda r: [r.randrange(1, 5)],
    A + 'alphabet_subset': lambda r: [L(r.sample(range(26), 3))],
    A + 'balanced_ternary_vector_to_string': lambda r: [_ints(r, 5, -1, 2)],
    A + 'inverse_cartesian_product': lambda r: (lambda a, b: [L([T([x, y]) for x in a for y in b])])(
        *r.choice([(r.sample(range(5), 2), r.sample(range(5, 9), 2)), (r.sample('abc', 2), r.sample('xyz', 2))])),
    A + 'multi_lcm': lambda r: [_ints(r, 3, 1, 9)],
    A + 'make_linear_boolf': lambda r: [r.randrange(1, 16), r.randrange(2)],
    A + 'make_linear_binv': lambda r: [r.randrange(8), 3, r.randrange(2)],
    A + 'walsh_function_to_index': lambda r: [L([bin(i & m).count('1') % 2 for m in [r.randrange(8)] for i in range(8)])],
    A + 'arity_to_walsh_matrix': lambda r: [r.randrange(4)],
    A + 'linear_to_walsh_and_oddness': lambda r: [L([1 ^ bin(i & m).count('1') % 2 for m in [r.randrange(1, 8)] for i in range(8)])],
    A + 'linear_to_leader_and_quadrant': lambda r: [L([bin(i & m).count('1') % 2 for m in [r.randrange(1, 8)] for i in range(8)])],
    A + 'find_integer_partitions': lambda r: [r.randrange(1, 7)],
    A + 'is_multisubset': lambda r: [['dict', [0, 1], [1, r.randrange(3)]], ['dict', [0, 2], [1, 1]]],
    A + 'multiset_to_distri': lambda r: [['dict', [0, 1], [1, 2]], L([0, 1, 2])],
    A + 'balanced_ternary_walsh_matrix': lambda r: [r.randrange(1, 3)],
    A + 'make_transposition': lambda r: r.sample(range(5), 2) + [5],
    A + 'powerset': lambda r: [r.choice([_perm(r, 3), L(r.sample('abcd', 3))])],
    A + 'repeat_sequence': lambda r: [_ints(r, 3), 3 * r.randrange(1, 4)],
    A + 'pretty_signs': lambda r: [_ints(r, 4)],
    A + 'flatten': lambda r: [L([1, L([2, L([3])]), T([4, 5])])],
    A + 'int_to_exposet': lambda r: [r.randrange(200)],
    A + 'exposet_to_int': lambda r: [_perm(r, 4)],
    A + 'vector_to_int': lambda r: [_tt(r)],
    A + 'sierpinski': lambda r: [r.choice(['tl', 'tr', 'bl', 'br']), r.randrange(1, 4)],
    A + 'hypercube_edges': lambda r: [r.randrange(4)],
    A + 'bin2svg': lambda r: [['array', _rows(r, 3, 4, 2)]],
    A + 'default_to_regular_dict': lambda r: [['dict', [1, 2]]],
    BA + 'reorder_if_atomvals_not_asc': lambda r: [['new', 'Binv', [_tt(r, 3)]], _perm(r, 3)],
    BA + 'deflate': lambda r: [['new', 'Binv', [_tt(r, 3)]], L([0, 2, 5])],
    BA + 'int_to_rcv': lambda r: [r.randrange(60)],
    BA + 'spotints_to_splits': lambda r: [r.choice([L, S])(sorted(r.sample(range(8), 3))), 3],
    BA + 'spread_sigperm_to_sigvar': lambda r: [L(_signed_perm(r, 3)), L([0, 1, 1])],
    BA + 'segment_to_adjacent_spots': lambda r: [_ints(r, 3, -1, 2)],
    BA + 'flat_to_layered': lambda r: r.choice([[_tt(r)], [_tt(r), True]]),
    BA + 'atom_indices_to_sequence': lambda r: [_perm(r, 3)],
    BA + 'sequence_to_entry_counts': lambda r: [_ints(r, 6, 0, 3)],
    BA + 'layered_is_greater': lambda r: [L([T([0]), T([0, 1]), T([1])]), L([T([r.randrange(2)]), T([1, 0]), T([1])])],
    BA + 'sort_each_layer': lambda r: [L([_ints(r, 2), _ints(r, 3)])],
    BA + 'apply_sigperm_to_colors': lambda r: [['dict', [1, L([0, 3])], [2, L([5, 6])]], 3, L(_signed_perm(r, 3))],
    BA + 'sierpinski_partition': lambda r: [r.randrange(8), 3],
    BA + 'sierpinski_twin': lambda r: [_tt(r, 2), r.choice([1, 2, 4]), 3],
    BA + 'twin_int': lambda r: [r.randrange(256), 3],
    BA + 'praetor_int': lambda r: [r.randrange(256), 3],
    BA + 'index_to_noble': lambda r: [r.randrange(16), 3],
    BA + 'noble_to_index': lambda r: [r.choice([0, 6, 10, 12]), 2],
    BA + 'boolfs_to_swan': lambda r: [L([boolf_literal(r, 3)]), r.random() < .5, r.random() < .5],
    BA + 'hasse_matrix_coordinates_to_tt': lambda r: [r.randrange(4), r.randrange(4), 2],
    PA + 'left_inversion_count': lambda r: [_perm(r, 5)],
    PA + 'right_inversion_count': lambda r: [_perm(r, 5)],
    PA + 'inversion_vector': lambda r: [_perm(r, 5)],
    PA + 'left_inversion_count_to_permutation': lambda r: [L([r.randrange(i + 1) for i in range(5)])],
    PA + 'right_inversion_count_to_permutation': lambda r: [L([r.randrange(5 - i) for i in range(5)])],
    PA + 'inversion_set_to_count': lambda r: [_pairs(r, 4)],
    PA + 'reduce_period': lambda r: [['dict', [0, 1], [1, 0], [2, 3], [3, 2]], r.choice([4, 8])],
    PA + 'broaden_moved': lambda r: [4, 6, S([0, 1]), S([2, 5])],
    SA + 'matrix_to_sequence': lambda r: [['array', [[0, 1, 0], [-1, 0, 0], [0, 0, 1]]], r.random() < .5],
    SA + 'sequence_to_matrix': lambda r: [L(_signed_perm(r, 3)), r.random() < .5],
    WA + 'vector_to_matrix': lambda r: [L([1, 3, 4])],
    WA + 'matrix_to_vector': lambda r: [['array', [[1, 1, 0], [0, 1, 0], [0, 0, 1]]]],
    WA + 'shrink_matrix': lambda r: [['array', [[1, 1, 0], [0, 1, 0], [0, 0, 1]]]],
}


def _gens(r):
    n = r.choice([2, 3])
    return [L(r.sample(range(n), r.randrange(n + 1))), n]


def _nobles(r):
    n = r.choice([1, 2, 3])
    i = r.randrange(1 << (1 << (n - 1)))
    return [_noble(i, n), n]


def _noble(i, n):
    """the noble with index i: index and index xor twin side by side"""
    h = 1 << (n - 1)
    t = sum((sum(i >> k & 1 for k in range(h) if k & m == k) & 1) << m for m in range(h))
    return (t ^ i) + (i << h)


HELPERS.update({
    A + 'int_to_sierpinski_row': lambda r: r.choice([[r.randrange(40)], [{'exposet': L(r.sample(range(5), r.randrange(4)))}]]),
    A + 'atompattern_to_signed_index': lambda r: (lambda n, k, z: [L([(i >> k & 1) ^ z for i in range(1 << n)])])(
        3, r.randrange(3), r.randrange(2)),
    A + 'binom': lambda r: [r.randrange(5, 9), r.randrange(6)],
    A + 'decimal_length': lambda r: [r.randrange(10 ** r.randrange(1, 6))],
    A + 'evil_to_index': lambda r: [r.choice([0, 3, 5, 6, 9, 10])],
    A + 'odious_to_index': lambda r: [r.choice([1, 2, 4, 7, 8, 11])],
    A + 'index_to_evil': lambda r: [r.randrange(12)],
    A + 'index_to_odious': lambda r: [r.randrange(12)],
    A + 'int_to_factoradic': lambda r: [r.randrange(200)],
    A + 'int_to_perm': lambda r: [r.randrange(200)],
    A + 'int_to_weight': lambda r: [r.randrange(200)],
    A + 'is_power_of_two': lambda r: [r.randrange(20)],
    A + 'is_natural': lambda r: [r.choice([0, 1, -1, True, 2.0, '1'])],
    A + 'log_int': lambda r: [1 << r.randrange(9)],
    A + 'log_ceil': lambda r: [r.randrange(1, 40)],
    A + 'log_floor': lambda r: [r.randrange(1, 40)],
    A + 'logic_abs': lambda r: [r.randrange(-5, 5)],
    A + 'logic_str': lambda r: [r.randrange(-5, 5)],
    A + 'logic_negate': lambda r: [r.randrange(-5, 5), r.choice([True, False, 0, 1]), r.choice([True, False])],
    A + 'logic_abs_increase': lambda r: [r.randrange(-5, 5), r.randrange(5), r.choice([True, False])],
    A + 'logic_negate_vector': lambda r: (lambda n: r.choice([
        [_ints(r, n), L(bits(r, n))], [_ints(r, n), L(bits(r, n)), {'want_string': True}],
        [L(_signed_perm(r, n)), {'which': L(r.sample(range(n), r.randrange(n + 1)))}]]))(r.randrange(1, 6)),
    A + 'make_atompattern': lambda r: [r.randrange(-3, 3), 3, {'negate': r.choice([True, False])}],
    A + 'make_atompattern_gen': lambda r: [r.randrange(-3, 3), 3, {'negate': r.choice([True, False])}],
    A + 'make_linear_binv': lambda r: r.choice([[r.randrange(8), 3, r.randrange(2)],
                                                [{'leader': r.randrange(4), 'quadrant': r.randrange(4), 'arity': 3}]]),
    A + 'make_linear_boolf': lambda r: r.choice([[r.randrange(1, 16), r.randrange(2)],
                                                 [{'leader': r.randrange(6), 'quadrant': r.randrange(4)}]]),
    A + 'arity_to_walsh_matrix': lambda r: [r.randrange(4), r.choice([True, False])],
    A + 'balanced_ternary_walsh_matrix': lambda r: [r.randrange(1, 3), r.choice([True, False])],
    A + 'key_tuples': lambda r: [r.choice([L([1, L([2, 3]), L([L([4]), 5])]), ['dict', [0, L([1, 2])], [1, ['dict', [7, 8]]]]]),
                                 r.choice([True, False])],
    A + 'other_entry_in_pair': lambda r: (lambda a, b: [T([a, b]), a])(*r.sample(range(6), 2)),
    A + 'schoute_coset_gen': lambda r: [r.choice([1, 2, 4]), r.choice([1, 2, 4]), 3],
    A + 'slice_to_range': lambda r: [['slice', r.choice([None, 0, 2]), r.choice([None, 5, 7]), r.choice([None, 1, 2])], r.randrange(9)],
    A + 'sort_cols_together': lambda r: [['array', _rows(r, 3, 4)], ['array', _rows(r, 2, 4)], {'small_on_top': r.choice([True, False])}],
    A + 'prime_factors': lambda r: r.choice([[r.randrange(2, 200)], [r.choice([12, 18, 36]), L([2, 3])]]),
    A + 'sierpinski': lambda r: [r.choice(['tl', 'tr', 'bl', 'br']), r.choice([{'degree': r.randrange(1, 4)}, {'size': r.randrange(1, 9)}])],
    A + 'type_clean_int': lambda r: [r.choice([3, True, 2.0])],
    A + 'type_like_int': lambda r: [r.choice([3, True, 2.0, '3'])],
    BA + 'atom_partition': lambda r: [r.randrange(3), 3],
    BA + 'count_split_regions': lambda r: [T([S([0, 1]), S([2])]), T([S([r.randrange(3)]), S([1, 2])])],
    BA + 'atom_indices_to_sequence': lambda r: [_perm(r, 3), r.choice([None, 8, 16])],
    BA + 'int_to_rcv': lambda r: [r.randrange(60), r.choice([None, 6, 8])],
    BA + 'intval_to_arity': lambda r: [r.randrange(300)],
    BA + 'intval_to_tt_length': lambda r: [r.randrange(300)],
    BA + 'noble_to_index': lambda r: _nobles(r),
    BA + 'noble_to_quadrant': lambda r: _nobles(r),
    BA + 'noble_to_royal': lambda r: _nobles(r),
    BA + 'noble_to_royal_and_quadrant': lambda r: _nobles(r),
    BA + 'noble_to_king_and_quadrant': lambda r: _nobles(r),
    BA + 'noble_to_king_index_and_quadrant': lambda r: _nobles(r),
    BA + 'symmetric_to_index': lambda r: [r.choice([0, 24, 36, 60, 90, 129, 189, 231, 255]), 3],
    BA + 'vector_to_twin_gen': lambda r: [_tt(r, 3), 3],
    BA + 'exposet_to_twin_gen': lambda r: [L(r.sample(range(8), 3)), 3],
    BA + 'zhe_vector_to_prefect_gen': lambda r: [_tt(r, 3), 3],
    BA + 'zhe_exposet_to_prefect_gen': lambda r: [L(r.sample(range(8), 3)), 3],
    BA + 'zhe_to_prefect': lambda r: [r.randrange(256), 3],
    PA + 'inversion_set_to_permutation': lambda r: [L([T([a, b]) for p in [r.sample(range(4), 4)] for a in range(4) for b in range(a + 1, 4)
                                                       if p[a] > p[b]])],
    PA + 'inversion_set_to_count': lambda r: [_pairs(r, 4), r.choice([True, False])],
    WA + 'matrix_to_vector': lambda r: [['array', [[1, 1, 0], [0, 1, 0], [0, 0, 1]]], r.choice([True, False])],
    'discretehelpers.binv.a:binary_length': lambda r: [r.randrange(40)],
    'discretehelpers.binv.a:to_pretty_string': lambda r: [_tt(r)],
    'discretehelpers.binv.a:to_string': lambda r: [_tt(r)],
})
for _op in ('and', 'or', 'xor', 'xand', 'eq', 'sand', 'gand', 'esand', 'osand'):
    HELPERS[BA + 'atoms_to_%s_gen' % _op] = _gens


def helper_call(rng, name=None):
    name = name or rng.choice(sorted(HELPERS))
    args = HELPERS[name](rng)
    if args and isinstance(args[-1], dict):
        return ['fn', name, args[:-1], args[-1]]
    return ['fn', name, args]


def vary(rng, e):
    """the same call with a slightly different argument: another order, another kind of container, another number or flag"""
    e = copy.deepcopy(e)
    spots = []

    def walk(box, k):
        x = box[k]
        if isinstance(x, list) and x and isinstance(x[0], str):
            if x[0] in ('ref', 'global'):
                return
            if x[0] in ('list', 'tuple', 'set') and len(x) > 1:
                spots.append((box, k))
            lo = {'attr': 1, 'call': 3, 'new': 2, 'fn': 2, 'op': 2}.get(x[0], 1)
            for j in range(lo, len(x)):
                if x[0] == 'attr' and j != 1:
                    continue
                walk(x, j)
        elif isinstance(x, list):
            for j in range(len(x)):
                walk(x, j)
        elif isinstance(x, dict):
            for j in sorted(x):
                walk(x, j)
        elif isinstance(x, (bool, int)):
            spots.append((box, k))
    walk([e], 0)
    if not spots:
        return e
    boxes = [s for s in spots if isinstance(s[0][s[1]], list)]
    box, k = rng.choice(boxes if boxes and rng.random() < .4 else spots)
    x = box[k]
    if isinstance(x, list):
        u = rng.random()
        if u < .5:
            ys = x[1:]
            rng.shuffle(ys)
            box[k] = [x[0]] + ys
        elif u < .8:
            box[k] = [rng.choice(['list', 'tuple'])] + x[1:]
        else:
            box[k] = x[:-1] if len(x) > 2 else x
    elif isinstance(x, bool):
        box[k] = rng.choice([not x, int(x)])
    elif x < 0:
        box[k] = ~x
    else:
        box[k] = rng.choice([x + 1, x ^ 1, max(0, x - 1)])
    return e
