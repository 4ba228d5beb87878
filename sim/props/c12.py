"""C12: files written and read by the library survive I/O faults"""
import gc
import json
import os
import pathlib
import resource
import shutil
import tempfile

from .. import catalog as C
from .. import expr as E
from .. import trace as T
from ..core import LIB, answer, cut, digest, shrink_list
from ..disk import Disk

ID = 'C12'
LEVEL = 'fault_enumeration'
TECHNIQUE = 'simulated disk faults under the append function and the template reader, file contents compared with a model'
NOTE = ('Faults of open, write, read and close at chosen operations, real limits on file size and open files, wrong paths, and '
        'interrupts inside the calls. The disk below the operating system is not modelled: no power loss.')
RUNS = {'quick': 2500, 'thorough': 40000}
RULE = ('a run is a history of 6 to 25 appends to up to three files and renderings of table rows by the library, each with at '
        'most one fault, everything in a scratch directory; after each call the file, the failure report and the open handles '
        'are judged; non-trivial: a fault fired and a later call went without one; distinct by the history')
TIME_UNIT = 'calls in histories'
MEASURE = 'distinct (call, length of old content, length of new text, fault) combinations'
COMPONENTS = {'real': ['discretehelpers from the working tree, Python file objects, the file system of the scratch directory'],
              'stub': ['raw file layer, in the calls with a simulated fault only'], 'model': ['file content as a byte string']}
ASSUMPTIONS = ['one caller at a time appends to a file']

TEMPLATE = os.path.join(LIB, 'boolf')


def text(rng):
    u = rng.random()
    if u < .08:
        return ''
    if u < .6:
        return ''.join(rng.choice('ab c\nx') for _ in range(rng.randrange(1, 40)))
    if u < .75:
        return ''.join(rng.choice('äß€\U0001d11e\n') for _ in range(rng.randrange(1, 20)))
    if u < .85:
        return 'line\r\nend\r' * rng.randrange(1, 4)
    return rng.choice('xyz') * rng.choice([4096, 8191, 8192, 8193, 20000, 70000]) + rng.choice(['', '\n', 'end'])


def fault(rng, append):
    u = rng.random()
    if u < .35:
        return None
    if u < .6:
        what = rng.choice(['open', 'write', 'write', 'write', 'close'] if append else ['open', 'read', 'read', 'read'])
        err = rng.choice({'open': ['EMFILE', 'EACCES', 'ENOENT', 'EIO'], 'write': ['ENOSPC', 'EIO', 'EDQUOT'],
                          'read': ['EIO'], 'close': ['EIO', 'ENOSPC']}[what])
        f = {'kind': 'disk', 'at': what, 'k': rng.choice([0, 0, 0, 1, 2]) if what in ('write', 'read') else 0, 'error': err,
             'n': rng.choice([0, 0, 1, 5, 100])}
        if what == 'write' and rng.random() < .4:
            f['lasting'] = True
        return f
    if u < .68:
        return {'kind': 'disk', 'at': 'write' if append else 'read', 'k': rng.randrange(3), 'error': None,
                'n': rng.choice([1, 2, 7, 1000]), 'lasting': rng.random() < .3}
    if u < .9:
        return {'kind': rng.choice(['interrupt', 'memory', 'foreign']), 'u': round(rng.random(), 6), 'opcodes': rng.random() < .3}
    if u < .95:
        return {'kind': 'no more handles'}
    if append:
        return {'kind': 'file size limit', 'n': rng.choice([0, 1, 10, 5000])}
    return None


def make(rng, i, tier):
    rng.hint = 3
    rows = [['new', 'Boolf', [''.join(map(str, C.tt_bits(rng, rng.choice([3, 3, 4]))))]] for _ in range(2)]
    steps = []
    for _ in range(rng.randrange(6, 26)):
        u = rng.random()
        if u < .7:
            steps.append(['append', rng.randrange(3), rng.choice(['str', 'str', 'path']), text(rng), fault(rng, True)])
        elif u < .8:
            steps.append(['bad', rng.choice(['directory', 'missing', 'long', 'loop', 'through', 'nul', 'surrogate', 'none']), text(rng)])
        elif u < .85:
            steps.append(['other', rng.randrange(3), rng.choice(['add', 'remove', 'cut', 'rewrite']), text(rng)])
        else:
            steps.append(['row', rng.randrange(2), rng.choice(['', 'abc', 'ä$x']), fault(rng, False)])
    return {'rows': rows, 'steps': steps}


def open_handles(where):
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if where(p):
            out.append(p)
    return out


class World:
    def __init__(self, plan, d):
        self.d = d
        self.rows = plan['rows']
        self.files = [os.path.join(d, 'f%d' % i) for i in range(3)]
        self.content = {}
        self.out = {'faults': {}, 'probes': {}, 'counts': {'appends': 0, 'rows': 0}, 'claims': [], 'steps': 0}
        self.fired = self.quiet = 0
        self.sigs = set()
        self.watched = lambda p: p.startswith(d + os.sep) or p.startswith(TEMPLATE) and not p.endswith('.py')
        self.disk = Disk(self.watched)

    def count(self, kind):
        self.out['faults'][kind] = self.out['faults'].get(kind, 0) + 1
        self.fired += 1

    def probe(self, name):
        self.out['probes'][name] = self.out['probes'].get(name, 0) + 1

    def call(self, fn, f):
        """returns (exception or None, value, did the fault fire, hard fault)"""
        box = []

        def run():
            box.append(fn())
        ex = None
        fired = hard = False
        self.held = None        # files open while the caller deals with the failure
        if f is None:
            try:
                run()
            except BaseException as e:
                ex = e
                self.held = self.handles()
        elif f['kind'] == 'disk':
            self.disk.arm(f)
            with self.disk:
                try:
                    run()
                except BaseException as e:
                    ex = e
                    self.held = self.handles()
                if ex is not None:
                    ex.__traceback__ = None
                gc.collect()        # abandoned files are closed while the fault is still there
            fired = bool(self.disk.fired)
            hard = fired and f['error'] is not None and f['at'] in ('open', 'close')
            name = '%s %s' % (f['error'] or 'short', f['at'])
        elif f['kind'] == 'no more handles':
            soft, hardlim = resource.getrlimit(resource.RLIMIT_NOFILE)
            low = os.dup(0)
            os.close(low)
            resource.setrlimit(resource.RLIMIT_NOFILE, (low, hardlim))
            try:
                run()
            except BaseException as e:
                ex = e
            finally:
                resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hardlim))
            if ex is not None:
                self.held = self.handles()
            fired, name = ex is not None, f['kind']
        elif f['kind'] == 'file size limit':
            soft, hardlim = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (f['size'] + f['n'], hardlim))
            try:
                run()
            except BaseException as e:
                ex = e
                self.held = self.handles()
                ex.__traceback__ = None
                gc.collect()
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hardlim))
            fired, name = ex is not None, f['kind']
        else:
            n, places = f['survey'][:2]
            k = T.pick_event(['any', f['u']], n, places)
            if k is not None:
                where, ex = T.with_fault(run, f['kind'], k, f['opcodes'])
                fired = bool(where)
            name = f['kind']
        if fired:
            self.count(name)
        elif ex is None:
            self.quiet += 1
        if ex is not None:
            ex.__traceback__ = None
            ex.__context__ = ex.__cause__ = None
        gc.collect()
        return ex, box[0] if box else None, fired, hard

    def read(self, path):
        try:
            with open(path, 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def leaks(self):
        return self.held or self.handles()

    def handles(self):
        left = open_handles(self.watched)
        return 'a file is still open after the call: %s' % os.path.basename(left[0]) if left else None

    def others(self, path):
        for p in self.files:
            if p != path and self.read(p) != self.content.get(p):
                return 'another file was changed'
        for d, dirs, files in os.walk(self.d):
            for n in files + dirs:
                if os.path.join(d, n) not in self.files and n not in ('dir', 'loop'):
                    return 'a new file %s is left behind' % n
        return None

    def step(self, s):
        self.out['steps'] += 1
        from discretehelpers.a import file_write
        if s[0] == 'append':
            path = self.files[s[1]]
            old = self.content.get(path)
            new = s[3].encode()
            f = s[4]
            arg = path if s[2] == 'str' else pathlib.Path(path)
            if f and f['kind'] == 'file size limit':
                f = dict(f, size=len(old or b''))
            if f and f['kind'] in ('interrupt', 'memory', 'foreign'):
                probe = os.path.join(self.d, 'survey')
                f = dict(f, survey=T.survey(lambda: file_write(probe, s[3]), f['opcodes']))
                if os.path.exists(probe):
                    os.unlink(probe)
            ex, _, fired, hard = self.call(lambda: file_write(arg, s[3]), f)
            self.out['counts']['appends'] += 1
            now = self.read(path)
            what = 'append of %d characters%s' % (len(s[3]), ' with fault %s' % json.dumps(
                {k: v for k, v in f.items() if k != 'survey'}) if f else '')
            self.sigs.add(digest(str(len(old or b'')), str(len(new)), json.dumps(s[4])))
            if ex is None:
                if hard and fired:
                    return '%s: the failure of the operating system was not reported' % what
                if now != (old or b'') + new:
                    return '%s returned normally, file is %r, expected %r' % (what, tail(now), tail((old or b'') + new))
            else:
                if not fired:
                    return '%s failed without a fault: %s' % (what, type(ex).__name__)
                base = old or b''
                if (now or b'')[:len(base)] != base or old is not None and now is None:
                    return '%s failed and the old content is lost: %r, before %r' % (what, tail(now), tail(old))
                rest = (now or b'')[len(base):]
                if not new.startswith(rest):
                    return '%s failed and left something else than a beginning of the new text: %r' % (what, tail(rest))
                if rest and rest != new:
                    self.probe('failed append left a part of the text')
            self.content[path] = now
            return self.leaks() or self.others(path)
        if s[0] == 'bad':
            arg, content = None, s[2]
            if s[1] == 'directory':
                arg = os.path.join(self.d, 'dir')
            elif s[1] == 'missing':
                arg = os.path.join(self.d, 'nowhere', 'f')
            elif s[1] == 'long':
                arg = os.path.join(self.d, 'n' * 300)
            elif s[1] == 'loop':
                arg = os.path.join(self.d, 'loop')
            elif s[1] == 'through':
                arg = os.path.join(self.files[0], 'f')
                if not os.path.exists(self.files[0]):
                    return None
            elif s[1] == 'nul':
                arg = os.path.join(self.d, 'a\0b')
            else:
                arg = self.files[1]
                content = s[2] + '\ud800' if s[1] == 'surrogate' else None
            old = self.content.get(self.files[1])
            ex, _, _, _ = self.call(lambda: file_write(arg, content), None)
            self.count('refused: ' + s[1])
            if ex is None:
                return 'an append that cannot work (%s) returned normally' % s[1]
            now = self.read(self.files[1])
            base = old or b''
            if (now or b'')[:len(base)] != base or not s[2].encode().startswith((now or b'')[len(base):]) \
                    or old is not None and now is None:
                return 'after an append that failed (%s) the file is %r, before %r' % (s[1], tail(now), tail(old))
            self.content[self.files[1]] = now
            return self.leaks() or self.others(self.files[1])
        if s[0] == 'other':         # somebody else works on the file
            path = self.files[s[1]]
            if s[2] == 'remove':
                if os.path.exists(path):
                    os.unlink(path)
            elif s[2] == 'add':
                with open(path, 'ab') as f:
                    f.write(s[3].encode())
            elif s[2] == 'cut':
                if os.path.exists(path):
                    os.truncate(path, os.path.getsize(path) // 2)
            else:
                with open(path + '.new', 'wb') as f:
                    f.write(s[3].encode())
                os.replace(path + '.new', path)
            self.content[path] = self.read(path)
            self.probe('file changed by somebody else')
            return None
        e = ['call', self.rows[s[1]], 'wiki_table_row', [s[2]]]
        f = s[3]
        if f and f['kind'] in ('interrupt', 'memory', 'foreign'):
            f = dict(f, survey=T.forked_survey(lambda: answer(e, []), f['opcodes']))
        ex, val, fired, hard = self.call(lambda: E.ev(e, []), f)
        self.out['counts']['rows'] += 1
        self.sigs.add(digest(json.dumps(e), json.dumps(s[3])))
        if ex is None:
            from ..canon import canon
            self.out['claims'].append([e, cut(canon(val)), 'table row%s' % (' with fault %s' % json.dumps(s[3]) if f else '')])
        elif not fired:
            self.out['claims'].append([e, 'raised ' + type(ex).__name__, 'table row'])
        return self.leaks()


def tail(b):
    if b is None:
        return None
    return b if len(b) < 60 else b[:20] + b'...' + b[-30:]


def execute(plan):
    d = os.path.realpath(tempfile.mkdtemp(prefix='verif-c12-'))
    try:
        os.mkdir(os.path.join(d, 'dir'))
        os.symlink('loop', os.path.join(d, 'loop'))
        w = World(plan, d)
        viol = None
        for i, s in enumerate(plan['steps']):
            viol = w.step(s)
            if viol:
                viol = 'step %d, %s' % (i + 1, viol.replace(d, '<scratch>'))
                break
    finally:
        shutil.rmtree(d)
    out = w.out
    out.update(viol=viol, sigs=sorted(w.sigs), sig=digest(json.dumps(plan)), trivial=not (w.fired and w.quiet))
    return out


def shrink(plan):
    for c in shrink_list(plan['steps']):
        yield dict(plan, steps=c)
    for i, s in enumerate(plan['steps']):
        k = {'append': 3, 'bad': 2, 'other': 3}.get(s[0])
        if k and len(s[k]) > 1:
            for t in ('x', s[k][:len(s[k]) // 2]):
                yield dict(plan, steps=plan['steps'][:i] + [s[:k] + [t] + s[k + 1:]] + plan['steps'][i + 1:])


def describe(plan):
    out = []
    for s in plan['steps']:
        if s[0] == 'append':
            out.append('append to file %d: %r%s' % (s[1], s[3] if len(s[3]) < 60 else s[3][:50] + '...', ' fault ' + json.dumps(s[4]) if s[4] else ''))
        elif s[0] == 'row':
            out.append('%s.wiki_table_row(%r)%s' % (E.show(plan['rows'][s[1]]), s[2], ' fault ' + json.dumps(s[3]) if s[3] else ''))
        else:
            out.append(' '.join(str(_) for _ in s)[:100])
    return '\n'.join(out)
