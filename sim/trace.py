"""Seams: events inside the library (source lines or bytecode instructions), faults raised at a chosen event, and caller
threads that are parked and released one at a time at chosen events."""
import gc
import os
import sys
import threading
import types
import _thread

from . import core

LIB = core.LIB


class Cut(Exception):
    """an exception from outside, of a type the library cannot know"""


class Interrupted(BaseException):
    """like KeyboardInterrupt: not an Exception"""


KINDS = {'interrupt': KeyboardInterrupt, 'memory': MemoryError, 'foreign': Cut}


def tracing(on_event, opcodes=False):
    """global trace function that calls on_event(frame) at each event inside the library"""

    def local(frame, event, arg):
        if event == 'line' or event == 'opcode':
            on_event(frame)
        return local

    def glob(frame, event, arg):
        if frame.f_code.co_filename.startswith(LIB):
            if opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return None
    if opcodes:
        # the interpreter prepares instruction events only if some frame asked for them before tracing starts
        sys._getframe().f_trace_opcodes = True
    return glob


def place(frame):
    off = '+%d' % frame.f_lasti if frame.f_trace_opcodes else ''
    return '%s:%d%s' % (frame.f_code.co_filename[len(LIB):], frame.f_lineno or 0, off)


def depth():
    n, f = 0, sys._getframe(1)
    while f is not None:
        n, f = n + 1, f.f_back
    return n


# ------------------------------------------------------------------------------------------------ events in several threads
# sys.settrace is a matter of one thread and switching it on in one while others stand inside the interpreter crashes
# CPython 3.12 in instruction mode; here the events of all library code are switched on once for the whole process.

TOOL = 3
_codes = []
_armed = None


def library_codes():
    """code objects of the library's functions; called once after the library is imported"""
    if not _codes:
        seen = set()
        todo = [f.__code__ for f in gc.get_objects() if type(f) is types.FunctionType]
        while todo:
            c = todo.pop()
            if c in seen or not c.co_filename.startswith(LIB):
                continue
            seen.add(c)
            _codes.append(c)
            todo += [k for k in c.co_consts if type(k) is types.CodeType]
    return _codes


EVERYWHERE = False      # listen to code that does not exist yet, too: for imports


def listen(on_event, opcodes):
    """on_event(code, line or instruction offset) at each event inside the library, in any thread"""
    global _armed
    m = sys.monitoring
    if EVERYWHERE:
        return _listen_everywhere(on_event)
    line, instr = m.events.LINE, m.events.INSTRUCTION
    if on_event is None:
        m.register_callback(TOOL, instr if opcodes else line, None)
        return
    if _armed is None:
        m.use_tool_id(TOOL, 'sim')
    if _armed != opcodes:
        for c in library_codes():
            m.set_local_events(TOOL, c, instr if opcodes else line)
        _armed = opcodes
    m.register_callback(TOOL, instr if opcodes else line, on_event)


def _listen_everywhere(on_event):
    global _armed
    m = sys.monitoring
    if on_event is None:
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.LINE, None)
        return
    if _armed is None:
        m.use_tool_id(TOOL, 'sim')
        _armed = 'everywhere'

    def event(code, line):
        if not code.co_filename.startswith(LIB):
            return m.DISABLE
        on_event(code, line)
    m.register_callback(TOOL, m.events.LINE, event)
    m.set_events(TOOL, m.events.LINE)


def survey_threaded(fn, opcodes=False):
    """like survey, with the events that Sched counts"""
    first, last = {}, {}
    n = 0

    def on_event(code, at):
        nonlocal n
        key = (code, at)
        if key not in first:
            first[key] = n
        else:
            last[key] = n
        n += 1
        if n > LIMIT:
            raise TooLong
    listen(on_event, opcodes)
    try:
        fn()
    except TooLong:
        pass
    except Exception:
        pass
    finally:
        listen(None, opcodes)
    return [n, by_file(first, last), 0]


def by_file(first, last):
    files = {}
    for d in (first, last):
        for key, k in d.items():
            files.setdefault(key[0].co_filename, set()).add(k)
    return [sorted(files[f]) for f in sorted(files, key=lambda f: min(files[f]))]


# ------------------------------------------------------------------------------------------------ survey of a call

LIMIT = 400000     # events after which a survey gives up


class TooLong(BaseException):
    pass


WATCHED = 30000     # events during which the watched objects are looked at


def survey(fn, opcodes=False, watch=None):
    """run fn; returns [number of events, places, extra stack depth]; places is a list of lists: for each source file visited,
    the events at which a line (or instruction) of it is visited for the first or for the last time.
    With a list of objects to watch there is a fourth entry: the events before which an attribute of one of them was set."""
    first, last = {}, {}
    n = 0
    dicts = [d for d in (getattr(x, '__dict__', None) for x in watch or ()) if type(d) is dict]
    state, changes = [tuple(map(id, d.values())) for d in dicts], []
    base = depth()
    deepest = base

    def on_event(frame):
        nonlocal n, deepest
        key = (frame.f_code, frame.f_lasti if opcodes else frame.f_lineno)
        if key not in first:
            first[key] = n
            d, f = 0, frame
            while f is not None:
                d, f = d + 1, f.f_back
            if d > deepest:
                deepest = d
        else:
            last[key] = n
        if dicts and n < WATCHED:
            for i, d in enumerate(dicts):
                now = tuple(map(id, d.values()))
                if now != state[i]:
                    state[i] = now
                    changes.append(n)
        n += 1
        if n > LIMIT:
            raise TooLong
    sys.settrace(tracing(on_event, opcodes))
    try:
        fn()
    except TooLong:
        pass
    except Exception:
        pass
    finally:
        sys.settrace(None)
    return [n, by_file(first, last), deepest - base, changes]


def forked_survey(fn, opcodes=False, timeout=30.0):
    """survey in a forked child, so that nothing of it stays behind"""
    kind, val = core.isolated(lambda: survey(fn, opcodes), timeout=timeout)
    return val if kind == 'ok' else [0, [], 0, []]


def pick_event(sel, n, places, changes=()):
    """sel = ['any', u]: uniform over all events; ['site', u, v]: u chooses the source file, v the event among its places;
    ['change', u, v]: shortly after an attribute was set; ['at', k]: that event.  None if there is no event."""
    if sel[0] == 'at':
        return sel[1]
    if n == 0:
        return None
    if sel[0] == 'change':
        if changes:
            c = changes[int(sel[1] * len(changes))]
            return min(n - 1, c + int(min(60.0, .5 / (1.0001 - sel[2]))))
        return int(sel[1] * n)
    if sel[0] == 'site' and places:
        f = places[int(sel[1] * len(places))]
        return f[int(sel[2] * len(f))]
    return int(sel[1] * n)


# ------------------------------------------------------------------------------------------------ one fault

def with_fault(fn, kind, k, opcodes=False):
    """run fn, raise the fault at event k; returns (place where it fired or None, exception that came out or None)"""
    if kind == 'stack':
        return with_short_stack(fn, k)
    n = 0
    fired = None
    exc = KINDS[kind]

    def on_event(frame):
        nonlocal n, fired
        if n == k and fired is None:
            fired = place(frame)
            n += 1
            raise exc('injected')
        n += 1
    out = None
    sys.settrace(tracing(on_event, opcodes))
    try:
        fn()
    except BaseException as ex:
        out = ex
    finally:
        sys.settrace(None)
    return fired, out


def with_short_stack(fn, extra):
    """run fn with only `extra` more stack frames available"""
    old = sys.getrecursionlimit()
    out = None
    try:
        sys.setrecursionlimit(depth() + 3 + extra)
        fn()
    except RecursionError as ex:
        out = ex
    except Exception as ex:
        out = ex
    finally:
        sys.setrecursionlimit(old)
    return ('stack of %d' % extra if isinstance(out, RecursionError) else None), out


class FailingOut:
    """standard output that fails at the k-th write"""

    def __init__(self, k):
        self.left = k
        self.fired = False

    def write(self, s):
        if self.left <= 0:
            self.fired = True
            raise OSError(28, 'No space left on device')
        self.left -= 1
        return len(s)

    def flush(self):
        pass


# ------------------------------------------------------------------------------------------------ threads

real_lock = _thread.allocate_lock


class Sched:
    """runs bodies in real threads, one at a time; control changes only at the scheduled events.

    schedule: list of [thread, number of events]; when it is used up the threads run to their end one after another.
    """
    current = None      # the scheduler in charge, for the simulated locks

    def __init__(self, bodies, schedule, opcodes=False, stall=20.0):
        self.bodies = bodies
        self.schedule = list(schedule)
        self.opcodes = opcodes
        self.n = len(bodies)
        self.gates = [real_lock() for _ in bodies]
        for g in self.gates:
            g.acquire()
        self.main_gate = real_lock()
        self.main_gate.acquire()
        self.done = [False] * self.n
        self.waiting = [None] * self.n      # lock a thread waits for
        self.results = [None] * self.n
        self.errors = [None] * self.n
        self.budget = 0
        self.running = None
        self.events = 0
        self.switches = []                  # (thread, place) where control was taken away
        self.ids = {}
        self.free = False                   # emergency: no control any more
        self.stall = stall
        self.stalled = False
        self.deadlock = False

    def on_event(self, code, at):
        if self.free:
            return
        i = self.ids.get(_thread.get_ident())
        if i is None:
            return
        self.events += 1
        self.budget -= 1
        if self.budget < 0:
            self.switches.append((i, '%s:%s%d' % (code.co_filename[len(LIB):], '+' if self.opcodes else '', at)))
            self._yield(i)

    def _body(self, i):
        self.gates[i].acquire()
        me = _thread.get_ident()
        self.ids[me] = i
        try:
            self.results[i] = self.bodies[i]()
        except BaseException as ex:
            self.errors[i] = ex
        del self.ids[me]
        self.done[i] = True
        self._next()

    def _runnable(self, i):
        return not self.done[i] and self.waiting[i] is None

    def _next(self):
        """pass control to the next thread of the schedule, or to the first one that can run"""
        while self.schedule:
            t, n = self.schedule.pop(0)
            if t < self.n and self._runnable(t) and n > 0:
                self.budget = n
                self.running = t
                self.gates[t].release()
                return t
        for t in range(self.n):
            if self._runnable(t):
                self.budget = 1 << 60
                self.running = t
                self.gates[t].release()
                return t
        if not all(self.done):
            self.deadlock = True
        self.main_gate.release()
        return None

    def _yield(self, i):
        t = self._next()
        if t == i:
            self.gates[i].acquire()     # our own gate was just released
            return
        self.gates[i].acquire()

    # used by the simulated locks
    def wait_for(self, lock):
        i = self.ids[_thread.get_ident()]
        self.waiting[i] = lock
        self._yield(i)

    def wake(self, lock):
        for i in range(self.n):
            if self.waiting[i] is lock:
                self.waiting[i] = None

    def run(self):
        Sched.current = self
        listen(self.on_event, self.opcodes)
        # a thread that ends or gets stuck must never take the interpreter's own switching for a schedule decision
        threads = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        old = sys.getswitchinterval()
        sys.setswitchinterval(1000.0)
        try:
            for t in threads:
                t.start()
            self._next()
            last = -1
            while not self.main_gate.acquire(timeout=self.stall):
                if self.events == last:         # nothing happens: a real lock is held by a parked thread
                    self.free = True
                    self.stalled = True
                    for g in self.gates:
                        if g.locked():
                            try:
                                g.release()
                            except RuntimeError:
                                pass
                    for t in threads:
                        t.join(self.stall)
                    break
                last = self.events
            if not self.deadlock:
                for t in threads:
                    t.join(self.stall)
        finally:
            sys.setswitchinterval(old)
            Sched.current = None
            listen(None, self.opcodes)
        return self


class SimLock:
    """lock that lets the scheduler know when a thread would have to wait"""
    reentrant = False

    def __init__(self):
        self._real = real_lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = Sched.current
        me = _thread.get_ident()
        if self.reentrant and self._owner == me:
            self._count += 1
            return True
        if s is None or s.free or me not in s.ids:
            ok = self._real.acquire(blocking, timeout)
        else:
            ok = self._real.acquire(False)
            while not ok and blocking:
                s.wait_for(self)
                ok = self._real.acquire(False)
        if ok:
            self._owner = me
            self._count = 1
        return ok

    def release(self):
        if self.reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError('cannot release un-acquired lock')
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._real.release()
        s = Sched.current
        if s is not None and not s.free:
            s.wake(self)

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._real = real_lock()
        self._owner = None
        self._count = 0

    # for threading.Condition
    def _is_owned(self):
        return self._owner == _thread.get_ident()


class SimRLock(SimLock):
    reentrant = True

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 1
        self.release()
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count, self._owner = st


def patch_locks():
    """called after the third-party packages and before the library are imported"""
    threading.Lock = SimLock
    threading.RLock = SimRLock
