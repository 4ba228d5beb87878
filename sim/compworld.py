"""Histories of equality and complement statements, executed on the library and on the model side by side."""
from . import expr as E
from .core import digest
from .models import ParityModel, PartModel, Refused
from .partworld import Bad, show_step, describe, shrink     # noqa: F401


class CompWorld:

    def __init__(self, focus):
        self.focus = focus          # 'closure' | 'refusal'
        self.objs, self.models, self.domains, self.labels = [], [], [], []   # labels: {frozenset of elements: label}
        self.counts, self.probes, self.sigs, self.steps = {}, {}, set(), 0

    def count(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    def probe(self, k):
        self.probes[k] = self.probes.get(k, 0) + 1

    def expect(self, what, got, want):
        if got != want:
            raise Bad('%s is %r, expected %r' % (what, got, want))

    def get(self, what, fn):
        try:
            return fn()
        except Exception as ex:
            raise Bad('%s raised %s: %s' % (what, type(ex).__name__, ex))

    def ask(self, i, q):
        o, m = self.objs[i], self.models[i]
        n = 'relation %d: ' % i
        k = q[0]
        self.count('questions')

        def same(what, fn, want):
            self.expect(n + what, self.get(n + what, fn), want)
        if k == 'pair':
            a, b = q[1], q[2]
            s = m.state(a, b)
            same('equal %r %r' % (a, b), lambda: bool(o.are_equal(a, b)), s == 0)
            same('complement %r %r' % (a, b), lambda: bool(o.are_comp(a, b)), s == 1)
        elif k == 'element':
            a = q[1]
            c = m.comp_block(a)
            same('complement of %r' % a, lambda: o.get_comp(a), c[0] if c else None)
            same('block of %r' % a, lambda: list(o.get_block(a)), m.block(a))
            same('representative of %r' % a, lambda: o.get_repr(a), m.block(a)[0])
        elif k == 'shape':
            same('equality blocks', lambda: [list(b) for b in o.equal_part.blocks], m.eq_blocks())
            same('complement pairs', lambda: set(o.comp_pairs), m.pairs_of_representatives())
        elif k == 'related':
            same('related blocks', lambda: [list(b) for b in o.related_part().blocks], m.related_blocks())
            same('number of related blocks', lambda: o.number_of_related_blocks(), len(m.related_blocks()))
        elif k == 'affected':
            els = m.elements()
            same('affected elements', lambda: list(o.affected_elements()), els)
            same('number of affected elements', lambda: o.number_of_affected_elements(), len(els))
            if els:
                same('length', lambda: o.length(), max(els) + 1)
        elif k == 'all_pairs':
            same('all complement pairs', lambda: set(o.all_complement_pairs()), m.complement_pairs())
        elif k == 'matches':
            if all(e >= 0 for e in m.elements()):
                v = q[1]
                same('integer %d matches' % v, lambda: bool(o.int_matches(v)), m.matches(v))
                # an integer made to match
                good = 0
                for e in m.elements():
                    r, p = m.find(e)
                    if (v >> (r % 7) & 1) ^ p:
                        good |= 1 << e
                same('integer %d matches' % good, lambda: bool(o.int_matches(good)), m.matches(good))
        elif k == 'boolf':
            els = m.elements()
            if all(0 <= e < 7 for e in els):
                n_at = max(els, default=0) + 1
                got = self.get(n + 'Boolean function', lambda: [int(x) for x in o.boolf().tt(n_at)])
                self.expect(n + 'truth table of the Boolean function', got, [int(m.matches(x)) for x in range(1 << n_at)])
                self.probe('Boolean function compared')
        elif k == 'labels':
            same('labels of the blocks', lambda: {tuple(b): l for b, l in o.equal_part.block_labels.items()},
                 {tuple(sorted(b)): l for b, l in self.labels[i].items()})
        elif k == 'rebuilt':
            SPC, SetPart = E.lookup('SetPartComp'), E.lookup('SetPart')
            dom = self.domains[i]
            part = SetPart(m.eq_blocks(), dom if isinstance(dom, str) else set(dom))
            same('equal to the relation built from all its pairs',
                 lambda: bool(o == SPC(part, sorted(m.complement_pairs()))), True)
            pairs = sorted(m.pairs_of_representatives())
            if pairs:
                less = SPC(SetPart(m.eq_blocks(), dom if isinstance(dom, str) else set(dom)), pairs[1:])
                same('equal to the relation without the pair %r' % (pairs[0],), lambda: bool(o == less), False)
                same('different from the relation without the pair %r' % (pairs[0],), lambda: bool(o != less), True)
        elif k == 'compare':
            j = q[1] % len(self.objs)
            if self.domains[i] == self.domains[j]:
                other = self.models[j]
                alike = m.eq_blocks() == other.eq_blocks() and m.complement_pairs() == other.complement_pairs()
                same('equal to relation %d' % j, lambda: bool(o == self.objs[j]), alike)
                if alike and i != j:
                    self.probe('two relations that say the same')
        else:
            raise ValueError(k)

    def audit(self, i):
        els = self.models[i].elements()
        for q in (['shape'], ['related'], ['affected'], ['all_pairs'], ['boolf'], ['rebuilt'], ['labels'],
                  *([['compare', i + 1]] if len(self.objs) > 1 else ())):
            self.ask(i, q)
        for v in (0, 1, 5, 0b101101):
            self.ask(i, ['matches', v])
        for a in els[:14]:
            self.ask(i, ['element', a])
        for a in els[:9]:
            for b in els[:9]:
                self.ask(i, ['pair', a, b])
        for a in (els[:1] or [3]):
            self.ask(i, ['pair', a, 77])
            self.ask(i, ['pair', 78, 77])
        self.ask(i, ['element', 77])

    def say(self, i, k, a, b):
        m = self.models[i]
        keep = m.copy()
        parity = 0 if k == 'eq' else 1
        dom = PartModel(self.domains[i])
        verdict = 'accepted'
        try:
            if not (dom.in_domain(a) and dom.in_domain(b)):
                raise Refused
            ca, cb = bool(m.comp_block(a)), bool(m.comp_block(b))
            m.say(a, b, parity)
            labels = relabelled(self.labels[i], m)
            if labels is None:
                self.probe('%s statement refused for labels, %d sides have complements' % (k, ca + cb))
                raise Refused
            self.labels[i] = labels
            if keep.state(a, b) is None:
                self.probe('new %s statement, %d sides have complements' % (k, ca + cb))
        except Refused:
            verdict = 'refused'
            self.models[i] = m = keep
        raised = None
        try:
            (self.objs[i].set_equal if k == 'eq' else self.objs[i].set_comp)(a, b)
        except Exception as ex:
            raised = ex
        what = 'relation %d: stating that %r is %s %r' % (i, a, 'equal to' if k == 'eq' else 'the complement of', b)
        self.count('statements ' + verdict)
        if verdict == 'accepted' and raised is not None:
            raise Bad('%s raised %s: %s' % (what, type(raised).__name__, raised))
        if verdict == 'refused' and raised is None:
            raise Bad('%s was accepted' % what)
        if verdict == 'refused' and 'refusal' in self.focus:
            self.audit(i)
            self.probe('audit right after a refused statement')
        self.sigs.add(digest(repr(m.eq_blocks()), repr(sorted(m.pairs_of_representatives()))))

    def step(self, s):
        self.steps += 1
        k = s[0]
        if k == 'new':
            self.new(s)
        elif s[1] >= len(self.objs):
            return
        elif k in ('eq', 'comp'):
            self.say(s[1], k, _el(s[2]), _el(s[3]))
        elif k == 'ask':
            self.ask(s[1], s[2])
        elif k == 'audit':
            self.audit(s[1])
        else:
            raise ValueError(k)

    def new(self, s):
        _, style, blocks, pairs, dom = s[:5]
        SPC, SetPart = E.lookup('SetPartComp'), E.lookup('SetPart')
        m = ParityModel()
        ok = True
        labels = {frozenset(b): l for b, l in (s[5] if len(s) > 5 and style == 'part' else ())}
        table = {tuple(sorted(b)): l for b, l in labels.items()}
        try:
            for b in blocks:
                for x in b[1:]:
                    m.say(b[0], x, 0)
            for a, b in pairs or ():
                m.say(a, b, 1)
                labels = relabelled(labels, m)
                if labels is None:
                    raise Refused
        except Refused:
            ok = False
        if style == 'list':
            args = [[list(b) for b in blocks]]
            dom = 'Z'
        elif style == 'part':
            args = [SetPart([list(b) for b in blocks], dom if isinstance(dom, str) else set(dom), *([table] if table else []))]
        else:
            args, m, dom, pairs, labels = [], ParityModel(), 'Z', None, {}
            ok = True
        if pairs is not None:
            args.append([tuple(p) for p in pairs])
        raised = None
        try:
            o = SPC(*args)
        except Exception as ex:
            raised = ex
        if ok and raised is not None:
            raise Bad('building from %r raised %s: %s' % (args, type(raised).__name__, raised))
        if not ok:
            if raised is None:
                raise Bad('contradicting construction %r was accepted' % (args,))
            self.count('constructions refused')
            o, m, dom, labels = SPC(), ParityModel(), 'Z', {}
        self.objs.append(o)
        self.models.append(m)
        self.domains.append(dom)
        self.labels.append(labels)


def relabelled(labels, m):
    """the labels after the blocks have grown to those of the model, or None if some block would have two"""
    out = {}
    for b, l in labels.items():
        now = frozenset(m.block(min(b)))
        if now in out:
            return None
        out[now] = l
    return out


def _el(x):
    return tuple(x) if isinstance(x, list) else x


def execute_history(hist, focus, out):
    w = CompWorld(focus)
    viol = None
    try:
        for n, s in enumerate(hist['steps']):
            try:
                w.step(s)
                if hist['audit'] == 'all':
                    for i in range(len(w.objs)):
                        w.audit(i)
            except Bad as bad:
                viol = 'step %d (%s): %s' % (n, show_step(s), bad)
                raise
        try:
            for i in range(len(w.objs)):
                w.audit(i)
        except Bad as bad:
            viol = 'at the end: %s' % bad
    except Bad:
        pass
    for d, src in ((out['counts'], w.counts), (out['probes'], w.probes)):
        for k, v in src.items():
            d[k] = d.get(k, 0) + v
    out['sigs'] |= w.sigs
    out['steps'] += w.steps
    return viol


def execute(plan, focus):
    out = {'counts': {}, 'probes': {}, 'sigs': set(), 'steps': 0}
    viol = None
    for h, hist in enumerate(plan['histories']):
        viol = execute_history(hist, set(focus), out)
        if viol:
            viol = 'history %d %s' % (h, viol)
            break
    n = out['counts'].get('statements refused', 0) + out['counts'].get('constructions refused', 0)
    out['faults'] = {'refused statement': n} if n else {}
    sigs = sorted(out['sigs'])
    out.update(sigs=sigs, sig=digest(*sigs), trivial=not sigs, viol=viol)
    return out


def draw_history(rng, max_steps, audit=None, ask=.35, labelled=.3):
    n = rng.choice([4, 5, 6, 7, 7, 9, 12, 18])
    u = rng.random()
    if u < .6:
        els = list(range(n))
    elif u < .8:
        els = list(range(-(n // 2), n - n // 2))
    else:
        els = sorted(rng.sample(range(-30, 90), n))
    dom = 'Z'
    style = rng.choice(['empty', 'empty', 'list', 'part', 'part'])
    if style == 'part':
        dom = rng.choice(['Z', 'N', 'F'])
        if dom == 'N':
            els = [abs(e) for e in els]
            els = sorted(set(els))
        elif dom == 'F':
            dom = els
    steps = []

    def mk():
        xs = [e for e in els if rng.random() < .6]
        rng.shuffle(xs)
        blocks = []
        while xs:
            k = rng.choice([1, 2, 2, 3])
            blocks.append(xs[:k])
            xs = xs[k:]
        pairs = None
        if rng.random() < .6:
            pairs = [rng.sample(els, 2) for _ in range(rng.randrange(0, 4))] if len(els) > 1 else []
        labels = []
        if style == 'part' and rng.random() < labelled:
            names = ['a', 'b', 'c', 0, 7, 'd']
            rng.shuffle(names)
            labels = [[b, names.pop()] for b in blocks if names and rng.random() < .5]
        steps.append(['new', style, blocks, pairs, dom, labels])
    nobj = rng.choice([1, 1, 1, 2])
    for _ in range(nobj):
        mk()
    models = None
    m = ParityModel()
    bias = rng.choice([.3, .5, .7])
    for _ in range(rng.randrange(4, max_steps + 1)):
        i = rng.randrange(nobj)
        u = rng.random()
        if u < ask:
            a, b = rng.choice(els), rng.choice(els)
            steps.append(['ask', i, rng.choice([['pair', a, b], ['pair', a, b], ['element', a], ['shape'], ['related'],
                                                ['affected'], ['all_pairs'], ['matches', rng.randrange(1 << 9)], ['boolf'],
                                                ['rebuilt'], ['labels'], ['compare', rng.randrange(2)]])])
            continue
        k = 'eq' if rng.random() < bias else 'comp'
        a, b = rng.choice(els), rng.choice(els)
        if rng.random() < .6:       # mostly say something new, so that the relation grows before it closes
            for _ in range(5):
                if m.state(a, b) is None:
                    break
                a, b = rng.choice(els), rng.choice(els)
        if rng.random() < .05:
            a = rng.choice([.5, 'x', [1, 2]] + ([] if dom == 'Z' else [-7, 99 if dom != 'N' else -2]))
        if rng.random() < .03:
            a, b = b, a
        steps.append([k, i, a, b])
        try:
            if type(a) is int and type(b) is int:
                m.say(a, b, 0 if k == 'eq' else 1)
        except Refused:
            pass
    return {'steps': steps, 'audit': audit or rng.choice(['end', 'end', 'all'])}
