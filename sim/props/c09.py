"""C09: operations leave operands and arguments alone"""
import contextlib
import io
import json

import numpy as np

from .. import catalog as C
from .. import expr as E
from .. import pool as P
from ..core import answer, cut, digest, shrink_list

ID = 'C09'
LEVEL = 'exploration'
TECHNIQUE = 'seeded histories over objects and caller-owned containers; the caller changes the containers at any moment'
NOTE = ('Sampled histories. Containers are lists, dicts, sets and arrays, nested ones included, and objects that can be changed '
        '(set partitions, relations). Values which the library hands out and the caller then changes are not claimed, except '
        'for results that are documented as new set partitions.')
RUNS = {'quick': 2600, 'thorough': 40000}
RULE = ('a run is a history of 10 to 60 steps: containers made by the caller, objects and copies built from them and from each '
        'other, questions and operations, helper functions, changes of containers and of changeable objects; non-trivial: a '
        'container or object was changed after something was built from it; distinct by the sequence of step kinds and names')
TIME_UNIT = 'steps of histories'
MEASURE = 'distinct pairs (call that got the container or operand, change made afterwards)'
COMPONENTS = {'real': ['discretehelpers from the working tree, numpy, sympy, networkx, bidict'],
              'stub': [], 'model': ['a fresh process as reference; snapshots of all containers before and after each call']}
ASSUMPTIONS = []


class Box(Exception):
    pass


CONTAINER = ('list', 'set', 'dict', 'array')


# ------------------------------------------------------------------------------------------------ drawing

class Story:
    def __init__(self, rng, uni):
        self.rng = rng
        self.d = P.Drawer(rng, uni)
        self.steps = []
        self.boxes = []
        self.objects = []
        self.changeable = []
        self.changed = set()

    def box(self, e):
        e = [['ref', self.object(x, 'Boolf')] if isinstance(x, list) and x and x[0] in ('new', 'global', 'op', 'call', 'attr') else x
             for x in e]
        i = self.d.add(e, 'box')
        self.boxes.append(i)
        self.steps.append({'s': 'box', 'id': i, 'e': e})
        return ['ref', i]

    def hoist(self, e, top=True):
        """containers inside an expression become containers of the caller"""
        if isinstance(e, dict):
            return {k: self.hoist(v, False) for k, v in e.items()}
        if not isinstance(e, list) or not e:
            return e
        if e[0] in ('new', 'fn', 'call', 'op', 'attr', 'list', 'tuple', 'dict'):
            inner = [e[0]] + [self.hoist_in(x) for x in e[1:]]
        else:
            inner = e
        if e[0] in CONTAINER and not top and self.rng.random() < .85:
            if e[0] == 'set' and any(isinstance(x, list) for x in e):
                return inner
            if self.boxes and self.rng.random() < .1:
                i = self.rng.choice(self.boxes)         # the same container again, fitting or not
                if self.d.makes[i][0] == e[0] and len(self.d.makes[i]) == len(e) and i not in self.changed:
                    return ['ref', i]
            return self.box(inner)
        return inner

    def hoist_in(self, x):
        if isinstance(x, list) and x and isinstance(x[0], str) and x[0] in (
                'new', 'fn', 'call', 'op', 'attr', 'ref', 'global', 'list', 'tuple', 'set', 'dict', 'array', 'slice', 'range', 'gen', 'copy'):
            return self.hoist(x, False)
        if isinstance(x, list):
            return [self.hoist_in(_) for _ in x]
        return self.hoist(x, False)

    def object(self, e, kind):
        i = self.d.add(e, kind)
        self.objects.append(i)
        self.steps.append({'s': 'obj', 'id': i, 'e': e})
        return i

    def literal(self, kind):
        e = self.rng.choice(self.d.uni[kind])
        i = self.object(self.hoist(e), kind)
        if kind == 'SetPart':
            self.changeable.append(i)
        return i

    def relation(self):
        rng = self.rng
        els = rng.sample(range(-1, 7), 6)
        parts = [i for i in self.objects if self.d.kinds[i] == 'SetPart']
        if parts and rng.random() < .4:
            e = ['new', 'SetPartComp', [['ref', rng.choice(parts)]]]
        else:
            e = ['new', 'SetPartComp', [E.L([E.L(els[:2]), E.L(els[2:4])]), E.L([E.T([els[0], els[4]])])]]
        i = self.object(self.hoist(e), 'SetPartComp')
        self.changeable.append(i)

    def mutate(self):
        rng = self.rng
        i = rng.choice(self.changeable)
        if self.d.kinds[i] == 'SetPart':
            a, b = rng.sample(range(9), 2)
            m, args = rng.choice([('merge_pair', [a, b]), ('merge_many', [self.hoist(E.L(rng.sample(range(9), 3)), False)]),
                                  ('add_label_to_element', [a, 'l%d' % rng.randrange(3)])])
        else:
            a, b = rng.sample(range(-1, 7), 2)
            m, args = rng.choice([('set_equal', [a, b]), ('set_comp', [a, b])])
        self.steps.append({'s': 'mutate', 'id': i, 'm': m, 'a': args})

    def copy(self):
        rng = self.rng
        i = rng.choice(self.changeable if self.changeable and rng.random() < .7 else self.objects)
        kind = self.d.kinds[i]
        x = ['ref', i]
        e = ['copy', x]
        u = rng.random()
        if kind == 'SetPart' and u < .5:
            e = ['new', 'SetPart', [['attr', x, 'blocks'], ['attr', x, 'domain'], ['attr', x, 'block_labels']]]
        elif kind == 'Binv' and u < .5:
            e = ['new', 'Binv', [x]]
        elif kind == 'SetPartComp' and u < .5:
            e = ['call', x, 'related_part', []]
            kind = 'SetPart'
        elif kind == 'Boolf' and u < .5:
            e = ['new', 'Boolf', [['attr', x, 'root'], ['attr', x, 'atomvals']]]
        elif kind == 'Perm' and u < .5:
            e = ['new', 'Perm', [['attr', x, 'mapping'], ['attr', x, 'perilen']]]
        j = self.object(e, kind)
        if kind in ('SetPart', 'SetPartComp'):
            self.changeable.append(j)

    def derive(self):
        rng = self.rng
        i = rng.choice(self.objects)
        kind = self.d.kinds[i]
        if kind == 'SetPartComp':
            return
        j = self.d.other(i)
        rng.hint = self.d.hints[i] or 1
        e = self.hoist(P.derive(rng, kind, ['ref', i], j))
        if E.size(E.resolve(e, self.d.recipes)) > 250:
            return
        k = self.object(e, kind)
        if kind == 'SetPart':
            self.changeable.append(k)

    def ask(self, i=None, whole=False):
        rng = self.rng
        i = rng.choice(self.objects) if i is None else i
        kind = self.d.kinds[i]
        if whole or kind == 'SetPartComp':
            e = ['ref', i]
        else:
            e = self.hoist(self.d.question(i))
        self.steps.append({'s': 'ask', 'e': e})

    def change(self):
        rng = self.rng
        i = rng.choice(self.boxes[-6:] if rng.random() < .6 else self.boxes)
        self.changed.add(i)
        self.steps.append({'s': 'change', 'id': i, 'how': rng.randrange(6), 'u': rng.randrange(1000)})


def make(rng, i, tier):
    uni = P.universe(rng.seed_no, i // 400)
    s = Story(rng, uni)
    s.literal(P.pick_kind(rng))
    w = {'literal': rng.choice([1, 2]), 'relation': rng.choice([0, .3, 1]), 'mutate': rng.choice([0, 1, 3]),
         'copy': rng.choice([.3, 1]), 'derive': rng.choice([0, 1, 2]), 'ask': rng.choice([1, 3]), 'change': rng.choice([1, 3]),
         'helper': rng.choice([0, 1, 3])}
    names = sorted(w)
    kinds = rng.choice([None, None, ['SetPart'], [rng.choice(C.KINDS)]])
    for _ in range(rng.randrange(8, 30)):
        k = rng.choices(names, [w[n] for n in names])[0]
        if k == 'literal':
            s.literal(rng.choice(kinds) if kinds else P.pick_kind(rng))
        elif k == 'mutate':
            if s.changeable:
                s.mutate()
        elif k == 'change':
            if s.boxes:
                s.change()
        elif k == 'helper':
            s.steps.append({'s': 'ask', 'e': s.hoist(C.helper_call(rng))})
        else:
            getattr(s, k)()
    for b in s.boxes:
        if rng.random() < .5:
            s.steps.append({'s': 'change', 'id': b, 'how': rng.randrange(6), 'u': rng.randrange(1000)})
    for o in s.objects:
        s.ask(o, True)
        if rng.random() < .6:
            s.ask(o)
    return {'steps': s.steps}


# ------------------------------------------------------------------------------------------------ executing

def freeze(v, names):
    """the content of a container as an expression; objects of the library by their names"""
    if id(v) in names:
        return names[id(v)]
    t = type(v)
    if v is None or t in (bool, int, str, float):
        return v
    if t is list:
        return E.L(freeze(x, names) for x in v)
    if t is tuple:
        return E.T(freeze(x, names) for x in v)
    if t is set:
        return E.S(sorted((freeze(x, names) for x in v), key=repr))
    if t is dict:
        return ['dict'] + [[freeze(a, names), freeze(b, names)] for a, b in v.items()]
    if t is np.ndarray:
        return ['array', v.tolist()]
    raise Box('a container now holds a %s' % t.__name__)


def change(v, how, u):
    """something the caller does to their own container"""
    t = type(v)
    if t is list:
        if how == 0:
            v.append(v[u % len(v)] if v else 1)
        elif how == 1 and v:
            v.pop(u % len(v))
        elif how == 2 and len(v) > 1:
            v.reverse()
        elif how == 3:
            v.clear()
        elif v:
            i = u % len(v)
            x = v[i]
            if type(x) is int:
                v[i] = 1 - x if x in (0, 1) else x + 1
            elif type(x) is bool:
                v[i] = not x
            else:
                v[i] = v[(u // 7) % len(v)]
    elif t is set:
        if how < 3:
            v.add(u % 11)
        elif v:
            v.discard(sorted(v, key=repr)[u % len(v)])
    elif t is dict:
        if how < 3 and len(v) > 1:
            ks = list(v)
            a, b = ks[u % len(ks)], ks[(u // 7) % len(ks)]
            v[a], v[b] = v[b], v[a]
        elif how == 3:
            v.clear()
        else:
            v[u % 13] = u % 5
    elif t is np.ndarray and v.size:
        if how == 3:
            v[...] = 0
        else:
            i = u % v.size
            v.flat[i] = 1 - v.flat[i]


def execute(plan):
    out = {'viol': None, 'faults': {}, 'probes': {}, 'counts': {}, 'steps': 0}
    slots, recipes, boxes, names = {}, {}, {}, {}
    claims, sigs, kinds, used = [], set(), [], {}
    changed = False
    seen = set()

    def recipe_of(e):
        if isinstance(e, list):
            if e and e[0] == 'ref':
                i = e[1]
                return freeze(slots[i], names) if i in boxes else recipes[i]
            return [recipe_of(_) for _ in e]
        if isinstance(e, dict):
            return {k: recipe_of(v) for k, v in e.items()}
        return e

    def snap():
        return {i: json.dumps(freeze(slots[i], names)) for i in boxes}
    before = {}
    for st in plan['steps']:
        e = st.get('e') or st.get('a')
        if any(r not in slots or isinstance(slots[r], Exception) for r in E.refs(e)) or (
                st['s'] in ('change', 'mutate') and (st['id'] not in slots or isinstance(slots[st['id']], Exception))):
            continue
        out['steps'] += 1
        kind = st['s']
        what = ''
        if kind == 'box':
            slots[st['id']] = E.ev(e, slots)
            boxes[st['id']] = True
            before = snap()
            continue
        if kind == 'change':
            change(slots[st['id']], st['how'], st['u'])
            before = snap()
            for w in used.get(st['id'], ()):
                sigs.add('%s/%s%d' % (w, type(slots[st['id']]).__name__, st['how']))
                changed = True
            out['faults']['caller changes a container'] = out['faults'].get('caller changes a container', 0) + 1
            kinds.append('c')
            continue
        r = recipe_of(e)
        if kind == 'obj':
            text, val = answer(e, slots)
            name = e[1] if isinstance(e[1], str) else e[2] if len(e) > 2 and isinstance(e[2], str) else e[0]
            slots[st['id']] = val
            recipes[st['id']] = r
            if type(val).__module__.startswith('discretehelpers') and not isinstance(val, Exception) and id(val) not in names:
                names[id(val)] = r
        elif kind == 'ask':
            text, val = answer(e, slots)
            name = e[2] if e[0] in ('attr', 'call') else str(e[1])
            key = json.dumps(r) + text
            if key not in seen:
                seen.add(key)
                claims.append([r, cut(text), 'after %d steps: %s' % (out['steps'], E.show(e))])
        else:
            i = st['id']
            name = st['m']
            x = slots[i]
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    getattr(x, name)(*[E.ev(_, slots) for _ in e])
            except Exception:
                pass
            new = ['after', recipes[i], name, r]
            for j in recipes:
                if slots[j] is x:
                    recipes[j] = new
            names[id(x)] = new
            out['faults']['caller changes an object'] = out['faults'].get('caller changes an object', 0) + 1
            for w in used.get(i, ()):
                sigs.add('%s/%s' % (w, name))
                changed = True
        kinds.append(kind[0] + str(name))
        for j in E.refs(e):
            used.setdefault(j, set()).add(str(name))
        # what the caller owns is as it was
        try:
            after = snap()
        except Box as ex:
            out['viol'] = 'step %d, %s: %s' % (out['steps'], what or E.show(e), ex)
            break
        if kind != 'mutate':
            bad = [i for i in after if i in before and after[i] != before[i]]
        else:
            bad = [i for i in after if i in before and after[i] != before[i] and not any(r in recipes for r in E.refs(boxes_expr(plan, i)))]
        if bad:
            i = bad[0]
            out['viol'] = 'step %d changed a value of the caller: %s: x%d was %s, is %s' % (
                out['steps'], E.show(e) if kind != 'mutate' else name, i, before[i], after[i])
            break
        before = after
    out['claims'] = claims
    out['sigs'] = sorted(digest(s) for s in sigs)
    out['sig'] = digest(*kinds)
    out['trivial'] = not changed
    return out


def boxes_expr(plan, i):
    for st in plan['steps']:
        if st['s'] == 'box' and st['id'] == i:
            return st['e']
    return []


def shrink(plan):
    for c in shrink_list(plan['steps']):
        yield {'steps': c}


def describe(plan):
    out = []
    for st in plan['steps']:
        if st['s'] in ('box', 'obj'):
            out.append('x%d = %s' % (st['id'], E.show(st['e'])))
        elif st['s'] == 'ask':
            out.append(E.show(st['e']))
        elif st['s'] == 'change':
            out.append('the caller changes x%d (%d, %d)' % (st['id'], st['how'], st['u']))
        else:
            out.append('x%d.%s(%s)' % (st['id'], st['m'], ', '.join(E.show(_) for _ in st['a'])))
    return '\n'.join(out)
