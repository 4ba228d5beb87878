"""Faults of files: a raw file that fails as told, put under every file opened by name inside the watched places."""
import builtins
import errno
import io
import os

ERRORS = {'ENOSPC': errno.ENOSPC, 'EIO': errno.EIO, 'EDQUOT': errno.EDQUOT, 'EMFILE': errno.EMFILE, 'EACCES': errno.EACCES,
          'ENOENT': errno.ENOENT}

real_open = builtins.open


class Disk:
    """fault = {'at': 'open'|'write'|'read'|'close', 'k': which operation, 'error': name or None (short), 'n': bytes done first}"""

    def __init__(self, watched):
        self.watched = watched      # predicate on the path
        self.fault = None
        self.fired = None
        self.pending = None
        self.count = {}
        self.opens = 0

    def arm(self, fault):
        self.fault = fault
        self.fired = None
        self.pending = None
        self.count = {}

    def due(self, what):
        k = self.count.get(what, 0)
        self.count[what] = k + 1
        f = self.fault
        if f and f['at'] == what and (f['k'] == k or f.get('lasting') and k > f['k']):
            self.fired = what
            return f
        return None

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        name = None
        if isinstance(file, (str, bytes)) or hasattr(file, '__fspath__'):
            name = os.path.realpath(os.fsdecode(file))
        if name is None or not self.watched(name):
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.opens += 1
        f = self.due('open')
        if f:
            raise OSError(ERRORS[f['error']], os.strerror(ERRORS[f['error']]), name)
        raw = Raw(self, file, ''.join(c for c in mode if c not in 'bt'))
        if buffering == 0:
            return raw
        if '+' in mode:
            buf = io.BufferedRandom(raw)
        elif 'r' in mode:
            buf = io.BufferedReader(raw)
        else:
            buf = io.BufferedWriter(raw)
        if 'b' in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
        text.mode = mode
        return text

    def __enter__(self):
        builtins.open = io.open = self.open
        return self

    def __exit__(self, *exc):
        builtins.open = io.open = real_open


class Raw(io.FileIO):
    def __init__(self, disk, file, mode):
        self.disk = disk
        super().__init__(file, mode)

    def write(self, b):
        """as the operating system does: bytes are written and counted, or nothing is written and the error comes"""
        if self.disk.pending:
            err, self.disk.pending = self.disk.pending, None
            raise OSError(err, os.strerror(err))
        f = self.disk.due('write')
        if f:
            n = min(f['n'], len(b) - 1)
            err = f['error'] and ERRORS[f['error']]
            if n > 0:
                self.disk.pending = err
                return super().write(bytes(b)[:n])
            if err:
                raise OSError(err, os.strerror(err))
        return super().write(b)

    def readinto(self, b):
        f = self.disk.due('read')
        if f:
            if f['error']:
                raise OSError(ERRORS[f['error']], os.strerror(ERRORS[f['error']]))
            m = memoryview(bytearray(max(1, min(f['n'], len(b)))))
            n = super().readinto(m)
            b[:n] = m[:n]
            return n
        return super().readinto(b)

    def readall(self):
        out = b''
        while True:
            b = bytearray(4096)
            n = self.readinto(b)
            if not n:
                return out
            out += bytes(b[:n])

    def close(self):
        was = self.closed
        super().close()
        if not was:
            f = self.disk.due('close')
            if f:
                raise OSError(ERRORS[f['error']], os.strerror(ERRORS[f['error']]))
