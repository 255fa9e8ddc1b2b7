""" The simulated disk.

Files are real files in a scratch directory, reached through a seam put in front
of the Python-level file API (`open`, `os.stat`, `os.scandir`, ...).  Every call
on a path inside the scratch directory is an *operation*: a yield point for the
scheduler and a place where the fault plan may act.

Fault kinds
  eio, eacces, emfile, enomem, enospc   the call raises OSError
  memerr                                the call raises MemoryError
  cut                                   the file loses its tail right before the
                                        call proceeds and gets it back later
                                        (a short read, a premature end of file)
  vanish                                the file is unlinked and comes back later
  permute                               a directory listing comes in another order
  part                                  a directory listing fails in the middle
  badsector                             reading a damaged range of a file fails
"""
import builtins
import errno
import io
import os
import random
import sys

import numpy as np

from .core import current_sim

REAL = dict(open=io.open, os_open=os.open, stat=os.stat, lstat=os.lstat,
            listdir=os.listdir, scandir=os.scandir, mkdir=os.mkdir,
            access=os.access, truncate=os.truncate, readlink=os.readlink,
            unlink=os.unlink, remove=os.remove, rename=os.rename,
            replace=os.replace, rmdir=os.rmdir, utime=os.utime,
            pread=os.pread, read=os.read, close=os.close, fromfile=np.fromfile)

ERRNO = dict(eio=errno.EIO, eacces=errno.EACCES, emfile=errno.EMFILE,
             enomem=errno.ENOMEM, enospc=errno.ENOSPC)

# faults that make sense for each kind of operation
LEGAL = dict(
    open=('eio', 'eacces', 'emfile', 'enomem', 'memerr', 'cut', 'vanish'),
    read=('eio', 'enomem', 'memerr', 'cut'),
    fd=('eio', 'memerr', 'cut'),
    stat=('eio', 'eacces', 'cut', 'vanish'),
    seek=(),
    close=(),
    list=('eio', 'eacces', 'emfile', 'part'),
    mkdir=('eio', 'eacces', 'enospc'),
)


class SimDisk:
    active = None

    def __init__(self, sim, root, cfg):
        """ cfg: {'rates': {kind: p}, 'ops': [op kinds], 'max': n, 'heal': k,
                  'permute': bool, 'offline': bool} """
        self.sim = sim
        self.root = os.path.abspath(root)
        self.cfg = dict(rates={}, ops=None, max=0, heal=6, permute=False,
                        p_yield=0.0, match=None)
        self.cfg.update(cfg or {})
        self.nop = 0
        self.opkinds = {}
        self.fired = []          # (step, owner, kind, opkind, relpath)
        self.fired_kinds = {}
        self.windows = []        # [start_step, end_step or None, path] of cut/vanish
        self.pending = []        # (heal_at_nop, path, restore fn, window)
        self.offline = False
        self.offline_hits = 0
        self.armed = True
        self.writes = []         # observed modifications (op, relpath)
        self.done = []           # (step, owner, op, relpath) that took effect
        self.fds = {}
        self.nfiles_open = 0
        self.redirect = []       # (prefix, physical prefix)
        self.trace_ops = None
        self.on_op = None        # harness hook(op, relpath) run before the op
        self.spans = None        # list of (owner, relpath, first byte, last + 1) read
        self.bad = {}            # relpath -> damaged ranges of bytes

    # ------------------------------------------------------------------ paths
    def phys(self, path):
        """ physical path or None when not ours """
        if isinstance(path, int):
            return None
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if p.startswith('/'):
            q = os.path.normpath(p) if '..' in p or '//' in p else p
        else:
            q = os.path.abspath(p)
        if q == self.root or q.startswith(self.root + '/'):
            return q
        for pre, phy in self.redirect:
            if q == pre or q.startswith(pre + '/'):
                return phy + q[len(pre):]
        return None

    def rel(self, phys):
        return phys[len(self.root):].lstrip('/')

    # --------------------------------------------------------------------- op
    def op(self, kind, path, extra=None):
        """ one disk operation is about to happen on physical `path` """
        sim = self.sim
        if self.on_op is not None:
            self.on_op(kind, self.rel(path))
        sim.yield_point('disk.' + kind, hot=self.cfg.get('hot', False))
        self.nop += 1
        nop = self.nop
        self.opkinds[kind] = self.opkinds.get(kind, 0) + 1
        sim.event('disk', kind, self.rel(path))
        if self.trace_ops is not None:
            self.trace_ops.append((kind, self.rel(path)))
        for item in [p for p in self.pending if p[0] <= nop]:
            self._heal(item)
        if self.offline:
            self.offline_hits += 1
            raise OSError(errno.EIO, 'simulated disk is down', path)
        fault = self._fault(kind, path, nop)
        if fault:
            self._apply(fault, kind, path, nop)
        return fault

    def _fault(self, kind, path, nop):
        d, cfg = self.sim.d, self.cfg
        legal = LEGAL.get(kind, ())
        if not legal or not self.armed:
            return None
        if d.replay:
            f = d.table.get(('fault', nop))
            return f if f and f[0] in legal else None
        if len(self.fired) >= cfg['max'] or not cfg['rates']:
            return None
        if cfg['ops'] and kind not in cfg['ops']:
            return None
        r = d.rng('fault')
        for k, p in cfg['rates'].items():
            if k in legal and r.random() < p:
                arg = r.randrange(1 << 30)
                d.recorded.append(['fault', nop, [k, arg]])
                return [k, arg]
        return None

    def _apply(self, fault, opkind, path, nop):
        kind, arg = fault
        sim = self.sim
        owner = sim.current.owner
        rec = (sim.step, owner, kind, opkind, self.rel(path))
        if kind in ERRNO:
            self._note(rec)
            raise OSError(ERRNO[kind], 'simulated ' + kind, path)
        if kind == 'part':
            return self._note(rec)
        if kind == 'memerr':
            self._note(rec)
            raise MemoryError('simulated allocation failure')
        if not os.path.isfile(path):
            return
        if any(p[1] == path for p in self.pending):
            return
        win = [sim.step, None, self.rel(path)]
        if kind == 'cut':
            with REAL['open'](path, 'rb') as f:
                data = f.read()
            if not data:
                return
            if arg & 1 and len(data) > 1024:    # among the samples of a recording
                size = 1024 + (arg >> 1) % (len(data) - 1024)
            else:
                size = (arg >> 1) % len(data)
            REAL['truncate'](path, size)

            def restore():
                with REAL['open'](path, 'r+b') as f:
                    f.seek(size)
                    f.write(data[size:])
            win.append(size)
        elif kind == 'vanish':
            bak = path + '.vanished~'
            REAL['rename'](path, bak)

            def restore():
                REAL['rename'](bak, path)
            win.append(0)
        else:
            raise ValueError(kind)
        self._note(rec)
        self.windows.append(win)
        self.pending.append((nop + 1 + (arg >> 20) % max(1, self.cfg['heal']), path, restore, win))

    def span(self, path, lo, hi):
        """ bytes [lo, hi) are about to be read; returns how many can be """
        rel = self.rel(path)
        owner = self.sim.current.owner
        if self.spans is not None:
            self.spans.append((owner, rel, lo, hi))
        first = min((max(a, lo) for a, b in self.bad.get(rel, ()) if a < hi and b > lo),
                    default=None)
        if first is None:
            return hi - lo
        if first == lo:
            self._note((self.sim.step, owner, 'badsector', 'read', rel))
        return first - lo

    def _note(self, rec):
        self.fired.append(rec)
        self.fired_kinds[rec[2]] = self.fired_kinds.get(rec[2], 0) + 1
        self.sim.event('fault', rec[2], rec[3], rec[4])

    def _heal(self, item):
        self.pending.remove(item)
        item[2]()
        item[3][1] = self.sim.step
        self.sim.event('heal', item[3][2])

    def left_open(self):
        """ files of the disk that the process has open """
        out = []
        for fd in REAL['listdir']('/proc/self/fd'):
            try:
                p = REAL['readlink']('/proc/self/fd/' + fd)
            except OSError:
                continue
            if p.startswith(self.root + '/'):
                out.append(self.rel(p))
        if self.nfiles_open and not out:
            out.append(f'{self.nfiles_open} file objects')
        return sorted(out)

    def heal_all(self):
        for item in list(self.pending):
            self._heal(item)
        self.offline = False

    def faults_between(self, s0, s1, owner):
        """ did a fault hit an operation of `owner` running from step s0 to s1 """
        for step, ow, kind, opkind, rel in self.fired:
            if ow == owner and s0 <= step <= s1:
                return True
        return self.window_between(s0, s1)

    def window_between(self, s0, s1, rel=None):
        for w in self.windows:
            if rel is not None and w[2] != rel:
                continue
            if w[0] <= s1 and (w[1] is None or w[1] >= s0):
                return True
        return False


class SimRaw(io.FileIO):
    def __init__(self, phys, mode, disk):
        super().__init__(phys, mode)
        self._disk = disk
        self._phys = phys
        disk.nfiles_open += 1

    def _op(self, kind):
        s = current_sim()
        if s is not None and s.disk is self._disk and not s.aborting:
            self._disk.op(kind, self._phys)

    def _span(self, n):
        """ how many of the next n bytes can be read """
        d = self._disk
        s = current_sim()
        if s is None or s.disk is not d or s.aborting or (d.spans is None and not d.bad):
            return n
        pos = super().tell()
        end = max(pos, REAL['stat'](self._phys).st_size)
        hi = end if n is None or n < 0 else min(end, pos + n)
        if hi <= pos:
            return n
        left = d.span(self._phys, pos, hi)
        if not left:
            raise OSError(errno.EIO, 'simulated bad sector', self._phys)
        return left

    def readinto(self, b):
        self._op('read')
        n = self._span(len(b))
        if n < len(b):
            return super().readinto(memoryview(b)[:n])
        return super().readinto(b)

    def readall(self):
        self._op('read')
        parts = []
        while True:     # as far as the medium lets
            n = self._span(-1)
            part = super().read(n) if n >= 0 else super().readall()
            if not part:
                return b''.join(parts)
            parts.append(part)

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        self._op('read')
        return super().read(self._span(n))

    def write(self, b):
        self._op('write')
        return super().write(b)

    def seek(self, *a):
        self._op('seek')
        return super().seek(*a)

    def fileno(self):
        fd = super().fileno()
        self._op('fd')
        return fd

    def close(self):
        if not self.closed:
            self._disk.nfiles_open -= 1
        super().close()


def sim_fromfile(file, dtype=float, count=-1, sep='', offset=0, **kwds):
    """ numpy reads with C functions behind the file object; a read error in the
    middle gives it fewer items """
    d = _disk()
    real = REAL['fromfile']
    if d is None or sep or kwds or (d.spans is None and not d.bad):
        return real(file, dtype, count, sep, offset, **kwds)
    if not hasattr(file, 'fileno'):
        if d.phys(file) is None:
            return real(file, dtype, count, sep, offset)
        with builtins.open(file, 'rb') as f:
            return sim_fromfile(f, dtype, count, sep, offset)
    raw = getattr(file, 'raw', file)
    if not isinstance(raw, SimRaw) or raw._disk is not d:
        return real(file, dtype, count, sep, offset)
    item = np.dtype(dtype).itemsize
    lo = file.tell() + offset
    end = max(lo, REAL['stat'](raw._phys).st_size)
    hi = end if count < 0 else min(end, lo + count * item)
    if hi > lo:
        left = d.span(raw._phys, lo, hi)
        if left < hi - lo:
            count = left // item
    return real(file, dtype, count, sep, offset)


def _disk():
    s = current_sim()
    if s is None or s.disk is None:
        return None
    return s.disk


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    d = _disk()
    phys = d.phys(file) if d is not None else None
    if phys is None:
        return REAL['open'](file, mode, buffering, encoding, errors, newline,
                            closefd, opener)
    writing = any(c in mode for c in 'wax+')
    if writing:
        d.writes.append(('open:' + mode, d.rel(phys)))
    d.op('open', phys)
    binary = 'b' in mode
    raw = SimRaw(phys, mode.replace('b', '').replace('t', ''), d)
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else 8192
        if '+' in mode:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


def _path_wrapper(name, opkind, modifies=False):
    real = REAL[name]

    def wrapper(path='.', *args, **kwds):
        d = _disk()
        phys = d.phys(path) if d is not None else None
        if phys is None:
            return real(path, *args, **kwds)
        if modifies:
            d.writes.append((name, d.rel(phys)))
        d.op(opkind, phys)
        got = real(phys, *args, **kwds)
        if modifies:
            d.done.append((d.sim.step, d.sim.current.owner, name, d.rel(phys)))
        return got
    wrapper.__name__ = name
    return wrapper


def _permuted(d, names):
    """ a directory can list its entries in any order """
    if not d.cfg['permute'] or len(names) < 2:
        return names
    names = sorted(names, key=lambda e: getattr(e, 'name', e))
    d.nlist = getattr(d, 'nlist', 0) + 1
    salt = d.sim.d.decide('permute', d.nlist, 0, lambda r: r.randrange(1, 1 << 30))
    if salt:
        random.Random(salt).shuffle(names)
        d.fired_kinds['permute'] = d.fired_kinds.get('permute', 0) + 1
    d.sim.event('listing', [getattr(e, 'name', e) for e in names])
    return names


def sim_listdir(path='.'):
    d = _disk()
    phys = d.phys(path) if d is not None and path is not None else None
    if phys is None:
        return REAL['listdir'](path)
    if d.op('list', phys):
        raise OSError(errno.EIO, 'simulated failure in a listing', phys)
    return _permuted(d, REAL['listdir'](phys))


class _Scandir:
    def __init__(self, entries, fail_at=None):
        self._it = iter(entries)
        self._left = fail_at

    def __iter__(self):
        return self

    def __next__(self):
        if self._left is not None:
            if not self._left:
                raise OSError(errno.EIO, 'simulated failure in a listing')
            self._left -= 1
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def sim_scandir(path='.'):
    d = _disk()
    if path is None:
        path = '.'
    phys = d.phys(path) if d is not None else None
    if phys is None:
        return REAL['scandir'](path)
    fault = d.op('list', phys)
    with REAL['scandir'](path) as it:
        entries = _permuted(d, list(it))
    return _Scandir(entries, fault[1] % (len(entries) + 1) if fault else None)


def sim_os_open(path, flags, *args, **kwds):
    d = _disk()
    phys = d.phys(path) if d is not None else None
    if phys is None:
        return REAL['os_open'](path, flags, *args, **kwds)
    if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
        d.writes.append(('os.open', d.rel(phys)))
    d.op('open', phys)
    fd = REAL['os_open'](phys, flags, *args, **kwds)
    d.fds[fd] = phys
    return fd


def _fd_span(d, fd, pos, n):
    if d.spans is None and not d.bad:
        return n
    end = REAL['stat'](d.fds[fd]).st_size
    if min(end, pos + n) <= pos:
        return n
    left = d.span(d.fds[fd], pos, min(end, pos + n))
    if not left:
        raise OSError(errno.EIO, 'simulated bad sector', d.fds[fd])
    return left


def sim_os_read(fd, n):
    d = _disk()
    if d is not None and fd in d.fds:
        d.op('read', d.fds[fd])
        n = _fd_span(d, fd, os.lseek(fd, 0, os.SEEK_CUR), n)
    return REAL['read'](fd, n)


def sim_os_pread(fd, n, offset):
    d = _disk()
    if d is not None and fd in d.fds:
        d.op('read', d.fds[fd])
        n = _fd_span(d, fd, offset, n)
    return REAL['pread'](fd, n, offset)


def sim_os_close(fd):
    d = _disk()
    if d is not None:
        d.fds.pop(fd, None)
    return REAL['close'](fd)


def _two_path(name):
    real = REAL[name]

    def wrapper(src, dst, *a, **k):
        d = _disk()
        if d is not None:
            for p in (src, dst):
                q = d.phys(p)
                if q is not None:
                    d.writes.append((name, d.rel(q)))
        return real(src, dst, *a, **k)
    return wrapper


def install():
    builtins.open = sim_open
    io.open = sim_open
    os.open = sim_os_open
    np.fromfile = sim_fromfile
    os.read = sim_os_read
    os.pread = sim_os_pread
    os.close = sim_os_close
    os.stat = _path_wrapper('stat', 'stat')
    os.lstat = _path_wrapper('lstat', 'stat')
    os.readlink = _path_wrapper('readlink', 'stat')
    os.access = _path_wrapper('access', 'stat')
    os.listdir = sim_listdir
    os.scandir = sim_scandir
    os.mkdir = _path_wrapper('mkdir', 'mkdir', True)
    for name in ('truncate', 'unlink', 'remove', 'rmdir', 'utime'):
        setattr(os, name, _path_wrapper(name, 'write', True))
    for name in ('rename', 'replace'):
        setattr(os, name, _two_path(name))
