"""Reference models: plain, slow, obvious."""


class Refused(Exception):
    pass


class Either(Exception):
    """the statement leaves open whether the call is refused"""


class PartModel:
    """a set partition with block labels"""

    def __init__(self, domain, blocks=(), labels=None):
        self.domain = domain if isinstance(domain, str) else frozenset(domain)
        self.block_of = {}
        for b in blocks:
            if len(b) > 1:
                fb = frozenset(b)
                for e in fb:
                    self.block_of[e] = fb
        self.labels = dict(labels or {})    # frozenset -> label, singletons included

    def copy(self):
        m = PartModel(self.domain)
        m.block_of = dict(self.block_of)
        m.labels = dict(self.labels)
        return m

    # ---- reads
    def block(self, e):
        return self.block_of.get(e, frozenset([e]))

    def blocks(self):
        return sorted(sorted(b) for b in set(self.block_of.values()))

    def non_singletons(self):
        return set(self.block_of)

    def in_domain(self, e):
        if self.domain == 'N':
            return type(e) is int and e >= 0
        if self.domain == 'Z':
            return type(e) is int
        return e in self.domain

    def length(self):
        return max(self.block_of) + 1 if self.block_of else 0

    def pairs(self):
        out = set()
        for b in self.blocks():
            for i, x in enumerate(b):
                for y in b[i + 1:]:
                    out.add((x, y))
        return out

    def intval(self):
        return sum(1 << ((b * b - b) // 2 + a) for a, b in self.pairs())

    def span(self):
        if self.domain == 'N':
            return set(range(self.length()))
        if self.domain == 'Z':
            return set(range(min(self.block_of), max(self.block_of) + 1)) if self.block_of else set()
        return set(self.domain)

    def with_singletons(self, elements=None):
        els = self.span() if elements is None else set(elements)
        return sorted(self.blocks() + [[e] for e in els if e not in self.block_of])

    def singletons(self):
        return set(self.domain) - set(self.block_of)

    def label_of(self, e):
        return self.labels.get(self.block(e))

    def block_with(self, label):
        for b, l in self.labels.items():
            if l == label:
                return sorted(b)
        return None

    def label_table(self):
        return {tuple(sorted(b)): l for b, l in self.labels.items()}

    # ---- changes
    def _join(self, blocks):
        """merge the given blocks, which must not carry more than one label"""
        found = [self.labels[b] for b in blocks if b in self.labels]
        if len(found) > 1:
            raise Refused
        new = frozenset().union(*blocks)
        for b in blocks:
            self.labels.pop(b, None)
        for e in new:
            self.block_of[e] = new
        if found:
            self.labels[new] = found[0]

    def merge_many(self, els):
        distinct = []
        for e in els:
            if e not in distinct:
                distinct.append(e)
        if len(distinct) < 2:
            return
        if not all(self.in_domain(e) for e in distinct):
            raise Refused
        blocks = []
        for e in distinct:
            b = self.block(e)
            if b not in blocks:
                blocks.append(b)
        if len(blocks) > 1:
            self._join(blocks)

    def refine(self, new_blocks, new_labels):
        flat = [e for b in new_blocks for e in b]
        old = frozenset(flat)
        if len(flat) != len(old) or len(old) < 2 or self.block(flat[0]) != old:
            raise Refused
        labels = dict(self.labels)
        labels.pop(old, None)
        if new_labels is not None:
            if len(new_labels) != len(new_blocks):
                raise Refused
            for b, l in zip(new_blocks, new_labels):
                if l in labels.values():
                    raise Refused
                labels[frozenset(b)] = l
        for e in old:
            del self.block_of[e]
        for b in new_blocks:
            if len(b) > 1:
                for e in b:
                    self.block_of[e] = frozenset(b)
        self.labels = labels

    def label_element(self, e, label):
        if not self.in_domain(e):
            raise Refused
        b = self.block(e)
        if b in self.labels:
            if self.labels[b] != label:
                raise Refused
            return
        other = self.block_with(label)
        if other is not None:
            self._join([b, frozenset(other)])
            return
        if len(b) == 1 and e not in self.span():
            raise Either
        self.labels[b] = label

    def label_block(self, block, label):
        b = frozenset(block)
        if not block or len(b) != len(block) or self.block(block[0]) != b or not self.in_domain(block[0]):
            raise Refused
        if b in self.labels and self.labels[b] != label:
            raise Refused
        if b not in self.labels and self.block_with(label) is not None:
            raise Refused
        if len(b) == 1 and block[0] not in self.span():
            raise Either
        if list(block) != sorted(block):
            raise Either
        self.labels[b] = label

    # ---- lattice
    def meet(self, other):
        m = PartModel(self.domain)
        for e in set(self.block_of) & set(other.block_of):
            b = self.block(e) & other.block(e)
            if len(b) > 1:
                m.block_of[e] = b
        return m

    def join(self, other):
        m = PartModel(self.domain)
        for src in (self, other):
            for b in set(src.block_of.values()):
                bl = []
                for e in b:
                    x = m.block(e)
                    if x not in bl:
                        bl.append(x)
                if len(bl) > 1:
                    m._join(bl)
        return m

    def le(self, other):
        return all(b <= other.block(e) for e, b in self.block_of.items())


class ParityModel:
    """equality and complement statements: every element has a root and a parity towards it"""

    def __init__(self):
        self.root = {}      # element -> (root, parity)

    def copy(self):
        m = ParityModel()
        m.root = dict(self.root)
        return m

    def find(self, e):
        return self.root.get(e, (e, 0))

    def state(self, a, b):
        (ra, pa), (rb, pb) = self.find(a), self.find(b)
        if ra != rb:
            return None
        return pa ^ pb

    def say(self, a, b, parity):
        for e in (a, b):
            if type(e) is not int:
                raise Refused
        s = self.state(a, b)
        if s is not None:
            if s != parity:
                raise Refused
            return
        (ra, pa), (rb, pb) = self.find(a), self.find(b)
        for e in (a, b):
            self.root.setdefault(e, (e, 0))
        for e, (r, p) in list(self.root.items()):
            if r == rb:
                self.root[e] = (ra, p ^ pb ^ pa ^ parity)

    def elements(self):
        """elements related to some other element"""
        count = {}
        for e, (r, _) in self.root.items():
            count[r] = count.get(r, 0) + 1
        return sorted(e for e, (r, _) in self.root.items() if count[r] > 1)

    def block(self, e):
        r, p = self.find(e)
        return sorted(x for x in set(self.root) | {e} if self.find(x) == (r, p))

    def comp_block(self, e):
        r, p = self.find(e)
        return sorted(x for x in self.root if self.find(x) == (r, 1 - p))

    def eq_blocks(self):
        seen = []
        for e in self.elements():
            b = self.block(e)
            if len(b) > 1 and b not in seen:
                seen.append(b)
        return sorted(seen)

    def related_blocks(self):
        seen = []
        for e in self.elements():
            b = sorted(self.block(e) + self.comp_block(e))
            if len(b) > 1 and b not in seen:
                seen.append(b)
        return sorted(seen)

    def complement_pairs(self):
        els = self.elements()
        return {(a, b) for a in els for b in els if a < b and self.state(a, b) == 1}

    def pairs_of_representatives(self):
        return {tuple(sorted((self.block(a)[0], self.comp_block(a)[0]))) for a in self.elements() if self.comp_block(a)}

    def matches(self, n):
        els = self.elements()
        return all((n >> a & 1) ^ (n >> b & 1) == self.state(a, b)
                   for a in els for b in els if self.state(a, b) is not None)
