"""Histories over a pool of objects that are built from each other, checked against what the objects denote.

A world (one per property) knows, besides the library, an independent model: `model(op, args, vals)` computes the denoted
value of a new object from the values of its ingredients, `said(q, args, vals, i)` the right answer to a question.  A run
builds objects, asks, interrupts calls at chosen instants, and looks at everything again in between and at the end.
"""
import contextlib
import io
import json

from . import trace as T
from .core import cut, digest, shrink_list


class Undefined(Exception):
    """the model has no opinion: the history does not go there"""


def quietly(f, *args):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args)


def draw(rng, world, more=None, length=(10, 51), pool=9):
    vals, steps = [], []

    def add(op, args):
        try:
            v = world.model(op, args, vals)
        except Undefined:
            return False
        vals.append(v)
        steps.append(['make', op, args])
        return True

    def literal():
        while not add(*world.literal(rng)):
            pass

    def derived():
        for _ in range(6):
            oa = world.derived(rng, vals)
            if oa and add(*oa):
                return
        literal()

    def question(i, again=None):
        for _ in range(60 if again else 6):
            q, args = world.question(rng, vals, i)
            if again and q != again:
                continue
            try:
                world.said(q, args, vals, i)
                return [q, args]
            except Undefined:
                pass
        return None
    for _ in range(rng.randrange(1, 4)):
        literal()
    busy = rng.choice([.1, .2, .35])
    stubborn = rng.choice([0, 0, .3, .6])       # how often a question is followed by one like it with other arguments
    last = None
    for _ in range(rng.randrange(*length)):
        u = rng.random()
        i = rng.randrange(len(vals))
        if u < busy and len(vals) < pool:
            rng.choice([derived, derived, derived, literal])()
        elif u < .7:
            if last and rng.random() < stubborn:
                i = last[0]
                qa = question(i, last[1])
            else:
                qa = question(i)
            if qa:
                steps.append(['ask', i] + qa)
                last = [i, qa[0]] if qa[1] else last
                if rng.random() < .1:
                    steps.append(steps[-1])
        elif u < .82:
            sel = [rng.choice(['interrupt', 'memory']), round(rng.random(), 6), round(rng.random(), 6), rng.random() < .5]
            qa = question(i)
            if qa and rng.random() < .75:
                steps.append(['cutask', sel, i] + qa)
                if rng.random() < .6:
                    steps.append(['ask', i] + qa)
            else:
                oa = world.derived(rng, vals)
                if oa:
                    try:
                        world.model(*oa, vals)
                        steps.append(['cutmake', sel] + list(oa))
                    except Undefined:
                        pass
        elif u < .92 and more:
            steps.append(['noise', more(rng, i, vals)])
        else:
            steps.append(['look'])
    return {'steps': steps}


def execute(plan, world, noise=None):
    objs, vals = [], []
    faults, probes = {}, {}
    counts = {'objects': 0, 'answers compared': 0, 'looks at the whole pool': 0}
    sigs = set()
    viol = None
    steps = 0
    depth = 0

    def compare(q, args, i, what=''):
        want = world.said(q, args, vals, i)
        try:
            got = quietly(world.asked, q, args, objs, i)
        except Exception as ex:
            got = 'raised %s: %s' % (type(ex).__name__, cut(str(ex), 100))
        counts['answers compared'] += 1
        sigs.add(digest(world.text(vals[i]), q, json.dumps(args)))
        if got != want:
            return 'x%d.%s%s%s: got %s, but the ingredients say %s' % (i, q, world.show_args(args), what, cut(str(got), 300), cut(str(want), 300))

    def look(what):
        for i in range(len(objs)):
            for q, args in world.core(vals, i):
                v = compare(q, args, i, what)
                if v:
                    return v

    def interrupted(fn, sel):
        sv = T.forked_survey(fn)
        if sv and sv[0]:
            k = T.pick_event(['site', sel[1], sel[2]], sv[0], sv[1])
            if k is not None:
                where, _ = T.with_fault(fn, sel[0], k)
                if where:
                    faults[sel[0]] = faults.get(sel[0], 0) + 1

    for s in plan['steps']:
        steps += 1
        if s[0] == 'make':
            vals.append(world.model(s[1], s[2], vals))
            try:
                objs.append(quietly(world.build, s[1], s[2], objs))
            except Exception as ex:
                viol = 'x%d = %s%s failed: %s: %s' % (len(objs), s[1], world.show_args(s[2]), type(ex).__name__, cut(str(ex), 200))
                break
            counts['objects'] += 1
            viol = None
            for q, args in world.core(vals, len(objs) - 1)[:1]:
                viol = viol or compare(q, args, len(objs) - 1, ' of the new object')
        elif s[0] == 'ask':
            viol = compare(s[2], s[3], s[1])
        elif s[0] == 'cutask':
            interrupted(lambda: quietly(world.asked, s[3], s[4], objs, s[2]), s[1])
        elif s[0] == 'cutmake':
            interrupted(lambda: quietly(world.build, s[2], s[3], objs), s[1])
        elif s[0] == 'noise':
            try:
                quietly(noise, s[1], objs)
            except Exception:
                counts['unmodelled calls that raised'] = counts.get('unmodelled calls that raised', 0) + 1
        else:
            counts['looks at the whole pool'] += 1
            viol = look(' on a look at all')
        if viol:
            break
    if not viol:
        counts['looks at the whole pool'] += 1
        viol = look(' at the end')
    made = [s for s in plan['steps'] if s[0] == 'make' and world.from_others(s[2])]
    if made:
        probes['object built from objects'] = len(made)
    return {'viol': viol, 'claims': [], 'faults': faults, 'probes': probes, 'counts': counts, 'steps': steps,
            'sigs': sorted(sigs), 'sig': digest(json.dumps(plan['steps'])), 'trivial': not (made and counts['answers compared'] > 5)}


def refs(x):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == 'ref':
            return [x[1]]
        return [r for y in x for r in refs(y)]
    if isinstance(x, dict):
        return [r for y in x.values() for r in refs(y)]
    return []


def without(x, slot):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == 'ref':
            return ['ref', x[1] - (x[1] > slot)]
        return [without(y, slot) for y in x]
    if isinstance(x, dict):
        return {k: without(v, slot) for k, v in x.items()}
    return x


def asked_of(s):
    return {'ask': s[1] if len(s) > 1 else None, 'cutask': s[2] if len(s) > 2 else None}.get(s[0])


def shrink(plan):
    steps = plan['steps']
    for c in shrink_list([i for i, s in enumerate(steps) if s[0] != 'make']):
        keep = set(c) | {i for i, s in enumerate(steps) if s[0] == 'make'}
        yield dict(plan, steps=[s for i, s in enumerate(steps) if i in keep])
    makes = [i for i, s in enumerate(steps) if s[0] == 'make']
    for slot, i in reversed(list(enumerate(makes))):
        rest = [s for j, s in enumerate(steps) if j != i]
        if any(slot in refs(s) or asked_of(s) == slot for s in rest):
            continue
        out = []
        for s in rest:
            t = without(s, slot)
            if s[0] == 'ask':
                t[1] -= s[1] > slot
            elif s[0] == 'cutask':
                t[2] -= s[2] > slot
            out.append(t)
        yield dict(plan, steps=out)


def describe(plan, world):
    out, n = [], 0
    for s in plan['steps']:
        if s[0] == 'make':
            out.append('x%d = %s%s' % (n, s[1], world.show_args(s[2])))
            n += 1
        elif s[0] == 'ask':
            out.append('x%d.%s%s' % (s[1], s[2], world.show_args(s[3])))
        elif s[0] == 'cutask':
            out.append('x%d.%s%s       # %s inside' % (s[2], s[3], world.show_args(s[4]), s[1][0]))
        elif s[0] == 'cutmake':
            out.append('%s%s       # %s inside' % (s[2], world.show_args(s[3]), s[1][0]))
        else:
            out.append(json.dumps(s))
    return '\n'.join(out)


class World:
    def show_args(self, args):
        def one(x):
            if isinstance(x, list):
                return 'x%d' % x[1] if len(x) == 2 and x[0] == 'ref' else '[' + ', '.join(map(one, x)) + ']'
            return repr(x)
        return '(' + ', '.join(map(one, args)) + ')'

    def from_others(self, args):
        return bool(refs(args))

    def text(self, v):
        return repr(v)
