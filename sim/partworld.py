"""Histories of a pool of set partitions, executed on the library and on the model side by side."""
from . import expr as E
from .core import digest
from .models import PartModel, Refused, Either


class Bad(Exception):
    pass


def tup(x):
    """JSON lists stand for tuples inside element and label values"""
    return tuple(tup(_) for _ in x) if isinstance(x, list) else x


class World:

    def __init__(self, focus):
        self.focus = focus              # subset of {'relation', 'labels', 'refusal', 'lattice'}
        self.parts = []
        self.models = []
        self.counts = {}
        self.probes = {}
        self.sigs = set()
        self.log = []
        self.steps = 0

    def count(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    def probe(self, k):
        self.probes[k] = self.probes.get(k, 0) + 1

    # ------------------------------------------------------------------ reading the library object

    def expect(self, what, got, want):
        if got != want:
            raise Bad('%s is %r, expected %r' % (what, got, want))

    def get(self, what, fn):
        try:
            return fn()
        except Exception as ex:
            raise Bad('%s raised %s: %s' % (what, type(ex).__name__, ex))

    def ask(self, i, q):
        """one question; returns nothing, raises Bad"""
        p, m = self.parts[i], self.models[i]
        k = q[0]
        n = 'partition %d: ' % i
        self.count('questions')
        if k == 'blocks':
            self.expect(n + 'blocks', self.get(n + 'blocks', lambda: [list(b) for b in p.blocks]), m.blocks())
        elif k == 'pairs':
            self.expect(n + 'pairs', self.get(n + 'pairs', lambda: set(p.pairs)), m.pairs())
        elif k == 'intval':
            if m.domain == 'N':
                self.expect(n + 'intval', self.get(n + 'intval', lambda: p.intval), m.intval())
        elif k == 'canonical':
            self.expect(n + 'canonical blocks with singletons',
                        self.get(n + 'canonical blocks', lambda: [list(b) for b in p.canonical_blocks_with_singletons]),
                        m.with_singletons())
        elif k == 'listing':
            self.expect(n + 'blocks with singletons',
                        self.get(n + 'blocks with singletons', lambda: [list(b) for b in p.blocks_with_singletons()]),
                        m.with_singletons())
        elif k == 'listing_more':
            extra = q[1]
            if m.domain == 'N':
                length = m.length() + extra
                got = self.get(n + 'listing', lambda: p.blocks_with_singletons(length))
                self.expect(n + 'listing of length %d' % length, got, m.with_singletons(range(length)))
            elif m.domain == 'Z':
                ns = m.non_singletons() or {0}
                lo, hi = min(ns) - extra, max(ns) + 1 + extra
                got = self.get(n + 'listing', lambda: p.blocks_with_singletons(range_pair=(lo, hi)))
                self.expect(n + 'listing of range', got, m.with_singletons(range(lo, hi)))
            els = set(m.non_singletons()) | set(sorted(m.span())[:extra])
            got = self.get(n + 'listing', lambda: p.blocks_with_singletons(elements=els))
            self.expect(n + 'listing of elements', got, m.with_singletons(els))
        elif k == 'singletons':
            if not isinstance(m.domain, str):
                self.expect(n + 'singletons', self.get(n + 'singletons', lambda: set(p.singletons)), m.singletons())
        elif k == 'shape':
            self.expect(n + 'non-singletons', self.get(n + 'non-singletons', lambda: set(p.non_singletons)),
                        m.non_singletons())
            self.expect(n + 'trivial', self.get(n + 'trivial', lambda: bool(p.trivial)), not m.block_of)
            if m.domain == 'N':
                self.expect(n + 'length', self.get(n + 'length', lambda: p.length), m.length())
        elif k == 'same':
            a, b = tup(q[1]), tup(q[2])
            if a != b:
                got = self.get(n + 'same block', lambda: bool(p.pair_in_same_block(a, b)))
                self.expect(n + '%r and %r in the same block' % (a, b), got, m.block(a) == m.block(b))
        elif k == 'block_of':
            a = tup(q[1])
            self.expect(n + 'block of %r' % (a,), self.get(n + 'block', lambda: list(p.element_to_block(a))),
                        sorted(m.block(a)))
            got = self.get(n + 'index', lambda: p.non_singleton_to_block_index_or_none(a))
            want = m.blocks().index(sorted(m.block(a))) if a in m.block_of else None
            self.expect(n + 'block index of %r' % (a,), got, want)
        elif k == 'in_domain':
            a = tup(q[1])
            self.expect(n + '%r in domain' % (a,), self.get(n + 'domain', lambda: bool(p.element_in_domain(a))),
                        m.in_domain(a))
        elif k == 'equal':
            SetPart = E.lookup('SetPart')
            dom = m.domain if isinstance(m.domain, str) else set(m.domain)
            self.expect(n + 'equal to a fresh partition with the same blocks',
                        self.get(n + '==', lambda: p == SetPart(m.blocks(), dom)), True)
            other = [b for b in m.blocks()][1:] if m.block_of else None
            if other is not None:
                self.expect(n + 'equal to a fresh partition with other blocks',
                            self.get(n + '==', lambda: p == SetPart(other, dom)), False)
        elif k == 'label_of':
            a = tup(q[1])
            self.expect(n + 'label of element %r' % (a,), self.get(n + 'label', lambda: p.get_label_from_element(a)),
                        m.label_of(a))
            self.expect(n + 'label of the block of %r' % (a,),
                        self.get(n + 'label', lambda: p.get_label_from_block(sorted(m.block(a)))), m.label_of(a))
            want = sorted(m.block(a)) if m.label_of(a) is not None else None
            self.expect(n + 'labelled block of %r' % (a,),
                        self.get(n + 'block', lambda: p.get_block_from_element(a)), want)
        elif k == 'block_with':
            l = tup(q[1])
            self.expect(n + 'block with label %r' % (l,), self.get(n + 'block', lambda: p.get_block_from_label(l)),
                        m.block_with(l))
        elif k == 'labels':
            self.expect(n + 'labels', self.get(n + 'labels', lambda: dict(p.block_labels)), m.label_table())
        else:
            raise ValueError(k)

    RELATION = ('blocks', 'pairs', 'intval', 'canonical', 'listing', 'singletons', 'shape', 'equal')

    def audit(self, i, full=True):
        m = self.models[i]
        els = sorted(m.block_of)
        if not full:
            self.ask(i, ['blocks'])
            if 'labels' in self.focus:
                self.ask(i, ['labels'])
            return
        if self.focus & {'relation', 'refusal', 'lattice'}:
            for k in self.RELATION:
                self.ask(i, [k])
            for e in els:
                self.ask(i, ['block_of', e])
            for a, b in zip(els, els[1:] + els[:1]):
                self.ask(i, ['same', a, b])
            for e in sorted(m.span())[:6]:
                self.ask(i, ['block_of', e])
            self.ask(i, ['listing_more', 2])
        else:
            self.ask(i, ['blocks'])
        if self.focus & {'labels', 'refusal'}:
            self.ask(i, ['labels'])
            for b, l in sorted(m.label_table().items()):
                for e in b:
                    self.ask(i, ['label_of', e])
                self.ask(i, ['block_with', l])
            for e in els:
                self.ask(i, ['label_of', e])

    # ------------------------------------------------------------------ changing

    def change(self, i, what, on_model, on_lib):
        before = self.models[i].copy()
        verdict = 'accepted'
        try:
            on_model(self.models[i])
        except Refused:
            verdict = 'refused'
            self.models[i] = before.copy()
        except Either:
            verdict = 'either'
            self.models[i] = before.copy()
        raised = None
        try:
            on_lib(self.parts[i])
        except Exception as ex:
            raised = ex
        self.count('changes ' + verdict)
        if verdict == 'accepted' and raised is not None:
            raise Bad('partition %d: %s raised %s: %s' % (i, what, type(raised).__name__, raised))
        if verdict == 'refused' and raised is None:
            raise Bad('partition %d: %s was accepted' % (i, what))
        if verdict == 'either' and raised is None:
            raise Bad('__open__')
        if raised is not None:
            self.count('refused')
        return verdict

    def step(self, s):
        self.steps += 1
        k = s[0]
        if k == 'new':
            self.new(s)
            return
        if k in ('meet', 'join', 'cmp', 'copy', 'rebuild'):
            self.lattice(s)
            return
        i = s[1]
        if i >= len(self.parts):
            return
        if k == 'ask':
            self.ask(i, s[2])
            return
        if k == 'audit':
            self.audit(i)
            return
        audit_now = 'refusal' in self.focus
        if k == 'merge':
            a, b = tup(s[2]), tup(s[3])
            v = self.change(i, 'merging %r and %r' % (a, b), lambda m: m.merge_many([a, b]), lambda p: p.merge_pair(a, b))
        elif k == 'many':
            els = [tup(_) for _ in s[2]]
            conv = {'list': list, 'tuple': tuple, 'set': set, 'iter': iter}[s[3]]
            v = self.change(i, 'merging all of %r' % (els,), lambda m: m.merge_many(els), lambda p: p.merge_many(conv(els)))
            if v == 'refused':
                self.probe('refused merge of several')
        elif k == 'refine':
            bl = [[tup(_) for _ in b] for b in s[2]]
            la = None if s[3] is None else [tup(_) for _ in s[3]]
            conv = {'list': list, 'tuple': tuple}[s[4] if len(s) > 4 else 'list']
            arg = conv(conv(b) for b in bl)
            v = self.change(i, 'refining to %r with labels %r' % (bl, la), lambda m: m.refine(bl, la),
                            (lambda p: p.refine_block(arg)) if la is None else (lambda p: p.refine_block(arg, la)))
            if v == 'refused':
                self.probe('refused refinement')
            elif not self.models[i].block_of:
                self.probe('refined to singletons only')
        elif k == 'label_el':
            e, l = tup(s[2]), tup(s[3])
            v = self.relabel(i, 'labelling element %r as %r' % (e, l), lambda m: m.label_element(e, l),
                             lambda p: p.add_label_to_element(e, l), [e], l)
        elif k == 'label_bl':
            b, l = [tup(_) for _ in s[2]], tup(s[3])
            v = self.relabel(i, 'labelling block %r as %r' % (b, l), lambda m: m.label_block(b, l),
                             lambda p: p.add_label_to_block(b, l), b, l)
        else:
            raise ValueError(k)
        if v != 'accepted' and audit_now:
            self.audit(i)
            self.probe('audit right after a refused change')
        self.sigs.add(self.state_sig(i))

    def relabel(self, i, what, on_model, on_lib, block, l):
        import contextlib
        import io
        before = self.models[i].copy()
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return self.change(i, what, on_model, on_lib)
        except Bad as bad:
            if str(bad) != '__open__':
                raise
        # left open by the statement and accepted by the library: the label is on the block
        m = before
        m.labels[frozenset(block)] = l
        self.models[i] = m
        self.count('open calls accepted')
        return 'accepted'

    def new(self, s):
        _, dom, blocks, kind, labels = s
        blocks = [[tup(_) for _ in b] for b in blocks]
        domain = dom if isinstance(dom, str) else [tup(_) for _ in dom]
        conv = {'list': list, 'tuple': tuple, 'set': set}[kind]
        SetPart = E.lookup('SetPart')
        lib_dom = domain if isinstance(domain, str) else conv(domain)
        if labels:
            table = {tuple(sorted(tup(_) for _ in b)): tup(l) for b, l in labels}
            p = self.get('making a partition', lambda: SetPart(conv(blocks) if kind != 'set' else blocks, lib_dom, table))
            m = PartModel(domain, blocks, {frozenset(b): l for b, l in table.items()})
        else:
            p = self.get('making a partition', lambda: SetPart(conv(blocks) if kind != 'set' else blocks, lib_dom))
            m = PartModel(domain, blocks)
        self.parts.append(p)
        self.models.append(m)

    def lattice(self, s):
        k, i, j = s[0], s[1], s[2]
        if i >= len(self.parts) or j >= len(self.parts):
            return
        p, q, m, n = self.parts[i], self.parts[j], self.models[i], self.models[j]
        if m.domain != n.domain:
            return
        self.count('lattice operations')
        if k in ('meet', 'join'):
            r = self.get('%s of %d and %d' % (k, i, j), lambda: getattr(p, k)(q))
            w = getattr(m, k)(n)
            if not isinstance(w.domain, str):
                self.expect('domain of the %s' % k, set(r.domain), set(w.domain))
            else:
                self.expect('domain of the %s' % k, r.domain, w.domain)
            self.expect('%s of %d and %d' % (k, i, j), [list(b) for b in r.blocks], w.blocks())
            if k == 'meet' and w.block_of and w.blocks() not in (m.blocks(), n.blocks()):
                self.probe('meet strictly below both')
            self.parts.append(r)
            self.models.append(w)
        elif k == 'cmp':
            le, ge = m.le(n), n.le(m)
            self.expect('%d <= %d' % (i, j), self.get('<=', lambda: bool(p <= q)), le)
            self.expect('%d < %d' % (i, j), self.get('<', lambda: bool(p < q)), le and not ge)
            self.expect('%d == %d' % (i, j), self.get('==', lambda: bool(p == q)), le and ge)
            self.expect('%d >= %d' % (i, j), self.get('>=', lambda: bool(p >= q)), ge)
            if le and not ge:
                self.probe('strictly smaller')
        elif k == 'copy':
            import copy
            r = self.get('deep copy', lambda: copy.deepcopy(p))
            self.parts.append(r)
            self.models.append(m.copy())
        elif k == 'rebuild':
            SetPart = E.lookup('SetPart')
            r = self.get('rebuild', lambda: SetPart(p.blocks, p.domain, p.block_labels))
            self.parts.append(r)
            self.models.append(m.copy())
        self.sigs.add(digest(k, self.state_sig(i), self.state_sig(j)))

    def state_sig(self, i):
        m = self.models[i]
        return digest(repr(m.blocks()), repr(sorted(map(repr, m.label_table().items()))))


def execute(plan, focus):
    """plan: {'histories': [{'steps': [...], 'audit': 'end'|'all'}]}"""
    counts, probes, sigs, log, steps = {}, {}, set(), [], 0
    viol = None
    for h, hist in enumerate(plan['histories']):
        w = World(set(focus))
        try:
            for n, s in enumerate(hist['steps']):
                try:
                    w.step(s)
                    if hist['audit'] == 'all':
                        for i in range(len(w.parts)):
                            w.audit(i, full='lattice' not in focus or n % 4 == 0)
                    elif hist['audit'] == 'light' or 'lattice' in focus:
                        for i in range(len(w.parts)):
                            w.audit(i, full=False)
                except Bad as bad:
                    viol = 'history %d step %d (%s): %s' % (h, n, show_step(s), bad)
                    raise
            try:
                for i in range(len(w.parts)):
                    w.audit(i)
            except Bad as bad:
                viol = 'history %d at the end: %s' % (h, bad)
                raise
        except Bad:
            pass
        for d, src in ((counts, w.counts), (probes, w.probes)):
            for k, v in src.items():
                d[k] = d.get(k, 0) + v
        sigs |= w.sigs
        steps += w.steps
        if viol:
            break
    faults = {'refused change': counts.get('refused', 0)} if counts.get('refused') else {}
    return {'viol': viol, 'counts': counts, 'probes': probes, 'sigs': sorted(sigs), 'steps': steps, 'faults': faults,
            'sig': digest(*sorted(sigs)), 'trivial': not sigs}


def show_step(s):
    return '%s(%s)' % (s[0], ', '.join(repr(_) for _ in s[1:]))


def describe(plan):
    out = []
    for h, hist in enumerate(plan['histories']):
        out.append('history %d, audit %s' % (h, hist['audit']))
        out += ['  ' + show_step(s) for s in hist['steps']]
    return '\n'.join(out)


def shrink(plan):
    from .core import shrink_list
    hs = plan['histories']
    if len(hs) > 1:
        for h in reversed(range(len(hs))):
            yield {'histories': [hs[h]]}
        for c in shrink_list(hs):
            yield {'histories': c}
    for h, hist in enumerate(hs):
        for c in shrink_list(hist['steps']):
            yield {'histories': hs[:h] + [dict(hist, steps=c)] + hs[h + 1:]}
        if hist['audit'] != 'end':
            yield {'histories': hs[:h] + [dict(hist, audit='end')] + hs[h + 1:]}


# ------------------------------------------------------------------------------------------------ drawing histories

def universe(rng):
    """(domain, elements inside, elements outside)"""
    u = rng.random()
    n = rng.choice([3, 4, 5, 6, 6, 8, 10, 14, 20])
    if u < .35:
        els = list(range(n))
        if rng.random() < .3:
            els = sorted(rng.sample(range(40), n))
        return 'N', els, [-1, -5, .5, 'x']
    if u < .6:
        lo = rng.choice([-3, -n, -1, 5])
        els = list(range(lo, lo + n))
        return 'Z', els, [.5, 'x', [1, 2]]
    kind = rng.choice(['int', 'str', 'tuple'])
    if kind == 'int':
        els = sorted(rng.sample(range(-50, 1000), n))
        out = [1001, -99]
    elif kind == 'str':
        els = [chr(97 + i % 26) * (1 + i // 26) for i in range(n)]
        out = ['zz', 'Q']
    else:
        els = [[i // 3, i % 3] for i in range(n)]
        out = [[9, 9], [0, 7]]
    return els, els, out


LABELS = ['a', 'b', 'c', 'd', 'e', 0, 1, 7, [0, 1], '']


def draw_history(rng, weights, max_steps, pool=1, audit=None, lattice=False):
    """random history; a model runs along so that the drawn calls are mostly meaningful"""
    dom, els, outside = universe(rng)
    conv = rng.choice(['list', 'tuple', 'set'])
    models = []
    steps = []

    def blocks0():
        xs = [e for e in els if rng.random() < .7]
        rng.shuffle(xs)
        out = []
        while xs:
            k = rng.choice([1, 2, 2, 3, 4])
            out.append(xs[:k])
            xs = xs[k:]
        return out

    def mk():
        bl = blocks0() if rng.random() < .7 else []
        labels = []
        if weights.get('label_el', 0) and rng.random() < .3:
            free = list(LABELS)
            for b in bl:
                if rng.random() < .4 and free:
                    labels.append([b, free.pop(rng.randrange(len(free)))])
        steps.append(['new', dom, bl, conv if not isinstance(dom, str) else rng.choice(['list', 'tuple']), labels])
        d = dom if isinstance(dom, str) else [tup(e) for e in dom]
        models.append(PartModel(d, [[tup(e) for e in b] for b in bl],
                                {frozenset(tup(e) for e in b): tup(l) for b, l in labels}))

    def raw(x):
        return [raw(_) for _ in x] if isinstance(x, tuple) else x

    for _ in range(rng.randrange(1, pool + 1) if pool > 1 else 1):
        mk()
    kinds = sorted(weights)
    ws = [weights[k] for k in kinds]
    nsteps = rng.randrange(4, max_steps + 1)
    for _ in range(nsteps):
        k = rng.choices(kinds, ws)[0]
        i = rng.randrange(len(models))
        m = models[i]
        oops = rng.random()

        def el():
            return rng.choice(els)

        def wild():
            return rng.choice(outside) if oops < .12 else el()
        s = None
        if k == 'merge':
            s = ['merge', i, wild(), el()]
        elif k == 'many':
            n = rng.choice([0, 1, 2, 3, 3, 4, 5])
            xs = [el() for _ in range(n)]
            if xs and oops < .15:
                xs[rng.randrange(len(xs))] = rng.choice(outside)
            s = ['many', i, xs, rng.choice(['list', 'tuple', 'iter'] + ([] if any(isinstance(x, list) for x in xs) else []))]
        elif k == 'refine':
            bl = m.blocks()
            if bl and oops < .9:
                b = list(rng.choice(bl))
                rng.shuffle(b)
                if rng.random() < .6:
                    b.sort()
                parts = []
                mode = rng.random()
                if mode < .15:
                    parts = [[x] for x in b]
                elif mode < .25:
                    parts = [b]
                else:
                    while b:
                        c = rng.randrange(1, len(b) + 1)
                        parts.append(b[:c])
                        b = b[c:]
                if oops < .06 and parts:
                    parts[-1] = parts[-1][:-1] or parts[-1] + parts[-1]
                elif oops < .1:
                    parts.append(parts[0])
                parts = [[raw(x) for x in c] for c in parts]
            else:
                parts = [[el()], [el()]]
            labels = None
            if rng.random() < (.6 if weights.get('label_el') else .15):
                if rng.random() < .75:
                    pool_l = [l for l in LABELS if m.block_with(tup(l)) is None or rng.random() < .1]
                    rng.shuffle(pool_l)
                    labels = pool_l[:len(parts)]
                    if rng.random() < .3:
                        old = m.label_of(tup(parts[0][0])) if parts and parts[0] else None
                        if old is not None and labels and raw(old) not in labels:
                            labels[0] = raw(old)
                else:
                    labels = [rng.choice(LABELS) for _ in range(max(0, len(parts) + rng.choice([-1, 0, 0, 1])))]
            s = ['refine', i, parts, labels, rng.choice(['list', 'list', 'tuple'])]
        elif k == 'label_el':
            s = ['label_el', i, wild(), rng.choice(LABELS)]
        elif k == 'label_bl':
            if rng.random() < .85:
                b = sorted(m.block(tup(el())))
            else:
                b = [tup(el()) for _ in range(rng.randrange(1, 4))]
            s = ['label_bl', i, [raw(x) for x in b], rng.choice(LABELS)]
        elif k == 'ask':
            qk = rng.choice(['blocks', 'pairs', 'intval', 'canonical', 'listing', 'listing_more', 'singletons', 'shape', 'same',
                             'block_of', 'in_domain', 'equal'] + (['label_of', 'block_with', 'labels'] * 2 if
                                                                  weights.get('label_el') else []))
            s = ['ask', i, {'same': ['same', el(), el()], 'block_of': ['block_of', el()], 'in_domain': ['in_domain', wild()],
                            'label_of': ['label_of', el()], 'block_with': ['block_with', rng.choice(LABELS)],
                            'listing_more': ['listing_more', rng.randrange(4)]}.get(qk, [qk])]
        elif k == 'audit':
            s = ['audit', i]
        elif k == 'new':
            if len(models) < 6:
                mk()
            continue
        elif k in ('meet', 'join', 'cmp', 'copy', 'rebuild'):
            j = rng.randrange(len(models))
            if k in ('copy', 'rebuild'):
                j = i
            if k != 'cmp' and len(models) > 8:
                k = 'cmp'
            s = [k, i, j]
            if k in ('meet', 'join'):
                models.append(getattr(models[i], k)(models[j]))
            elif k in ('copy', 'rebuild'):
                models.append(models[i].copy())
        steps.append(s)
        _model_step(models, s)
    return {'steps': steps, 'audit': audit or rng.choice(['end', 'end', 'light', 'all'])}


def _model_step(models, s):
    if s[0] not in ('merge', 'many', 'refine', 'label_el', 'label_bl'):
        return
    m = models[s[1]]
    keep = m.copy()
    try:
        if s[0] == 'merge':
            m.merge_many([tup(s[2]), tup(s[3])])
        elif s[0] == 'many':
            m.merge_many([tup(_) for _ in s[2]])
        elif s[0] == 'refine':
            m.refine([[tup(_) for _ in b] for b in s[2]], None if s[3] is None else [tup(_) for _ in s[3]])
        elif s[0] == 'label_el':
            m.label_element(tup(s[2]), tup(s[3]))
        elif s[0] == 'label_bl':
            m.label_block([tup(_) for _ in s[2]], tup(s[3]))
    except (Refused, Either):
        models[s[1]] = keep
