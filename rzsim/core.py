""" Deterministic simulator core.

Every simulated thread is a real Python thread, but exactly one of them runs at
any time: the one holding the baton.  Threads hand the baton over only at *yield
points*: each traced line (or opcode) of razorback code, each intercepted disk
operation, each lock operation and each dask-task boundary.  Whether the baton
moves, to whom, which ready task a worker takes, which fault fires on which disk
operation: all those choices go through one `Decider`.

A run is a pure function of (code, workload, decisions).  In *explore* mode the
decisions are drawn from PRNG streams derived from one seed and every choice that
differs from the default is recorded; in *replay* mode the recorded decisions are
looked up and everything else takes the default.
"""
import _thread
import ast
import dis
import hashlib
import itertools
import random
import sys
import threading

REAL_LOCK = threading.Lock
REAL_RLOCK = threading.RLock


class Violation(Exception):
    """the property is broken; `kind` is the class kept while minimising"""

    def __init__(self, kind, msg):
        super().__init__(kind, msg)
        self.kind = kind
        self.msg = msg

    def __str__(self):
        return f'[{self.kind}] {self.msg}'


class InvalidWorkload(Exception):
    """the (shrunk) workload makes no sense: not a violation"""


class SimAbort(BaseException):
    """unwinds simulated threads when a run is given up"""


def stream(seed, *names):
    h = hashlib.sha256(repr((seed,) + names).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


_protected = {}


def _protected_lines(filename):
    """ (lines of cleanup code, header lines of try, header lines of with) """
    got = _protected.get(filename)
    if got is None:
        clean, heads, withs = set(), set(), set()
        try:
            with open(filename, encoding='utf-8') as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        for node in ast.walk(tree):
            if isinstance(node, ast.Try):
                heads.add(node.lineno)
                for part in [node.finalbody] + [h.body for h in node.handlers]:
                    if part:
                        clean.update(range(part[0].lineno, part[-1].end_lineno + 1))
                clean.update(h.lineno for h in node.handlers)
            elif isinstance(node, ast.With):
                withs.update(range(node.lineno, node.body[0].lineno))
        got = _protected[filename] = clean, heads, withs
    return got


def _cleaning_up(frame, prefix):
    """ is this point part of an acquisition or release?  No Python code can survive
    an asynchronous exception there (CPython itself delivers none between the end of
    a with block and the call of its __exit__) """
    first = True
    while frame is not None:
        co = frame.f_code
        if co.co_filename.startswith(prefix):
            clean, heads, withs = _protected_lines(co.co_filename)
            line = frame.f_lineno
            if line in clean or co.co_name in ('__exit__', '__enter__', '__del__', 'close'):
                return True
            if first and (line in heads or line in withs and _leaving(co, frame.f_lasti)):
                return True
            first = False
        frame = frame.f_back
    return False


_leave_offsets = {}


def _leaving(co, lasti):
    got = _leave_offsets.get(co)
    if got is None:
        got, ins = set(), list(dis.get_instructions(co))
        for i, x in enumerate(ins):
            if (x.opname == 'CALL' and x.arg == 2 and i >= 3
                    and all(y.opname == 'LOAD_CONST' and y.argval is None
                            for y in ins[i - 3:i])):
                got.update(y.offset for y in ins[max(0, i - 4):i + 1])
            if x.opname == 'WITH_EXCEPT_START':
                got.update(y.offset for y in ins[max(0, i - 1):i + 1])
        _leave_offsets[co] = got
    return lasti in got


class Decider:
    """ single source of every choice of a run """

    def __init__(self, seed=None, recorded=None):
        self.seed = seed
        self.replay = recorded is not None
        self.table = {}
        if self.replay:
            for kind, key, value in recorded:
                self.table[(kind, key)] = value
        self.recorded = []
        self._streams = {}

    def rng(self, kind):
        r = self._streams.get(kind)
        if r is None:
            r = self._streams[kind] = stream(self.seed, 'dec', kind)
        return r

    def decide(self, kind, key, default, draw):
        """ draw(rng) -> JSON value; only called in explore mode """
        if self.replay:
            return self.table.get((kind, key), default)
        value = draw(self.rng(kind))
        if value != default:
            self.recorded.append([kind, key, value])
        return value


class SimThread:
    def __init__(self, sim, tid, fn, name, owner):
        self.sim, self.tid, self.fn, self.name = sim, tid, fn, name
        self.owner = tid if owner is None else owner
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.state = 'ready'     # ready | blocked | done
        self.pred = None
        self.error = None        # exception escaping fn (harness level)
        self.inject = False      # asynchronous exceptions allowed
        self.out = []            # captured stdout
        self.notrace = 0

    def runnable(self):
        return self.state == 'ready' or (self.state == 'blocked' and self.pred())


class Opts:
    """ knobs of one run, part of the workload (JSON) """
    DEFAULT = dict(workers=1, p_switch=0.0, p_hot=0.0, hot_salt=0, hot_mod=5,
                   opcodes=False, p_forced=0.5, p_task=0.5, p_inject=0.0,
                   step_limit=3_000_000, p_disk_switch=0.0, ship=False)

    def __init__(self, dct):
        self.__dict__.update(self.DEFAULT)
        self.__dict__.update(dct)


class Sim:
    active = None

    def __init__(self, decider, opts, trace_prefix):
        self.d = decider
        self.o = Opts(opts)
        self.prefix = trace_prefix
        self.threads = []
        self.current = None
        self.step = 0
        self.npick = 0
        self.npause = 0
        self.ntask = 0
        self.aborting = None
        self.main_gate = _thread.allocate_lock()
        self.main_gate.acquire()
        self.log = hashlib.sha256()
        self.nlog = 0
        self.keep_log = None        # list when full log wanted
        self.sched_hash = hashlib.sha256()
        self.nswitch = 0
        self.ninject = 0
        self.inject_log = []
        self.by_ident = {}
        self._codes = {}
        self._next_switch = self._draw_gap()
        self._next_inject = self._draw_inject_gap()
        self.deadlock = None
        self.probes = {}
        self.disk = None

    # ---------------------------------------------------------------- logging
    def event(self, *what):
        # path- and id-free payloads only; never draws from a PRNG
        rec = repr((self.step, self.current.tid if self.current else -1) + what)
        self.log.update(rec.encode())
        self.nlog += 1
        if self.keep_log is not None:
            self.keep_log.append(rec)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    # ------------------------------------------------------------- scheduling
    def _draw_gap(self):
        if self.d.replay or self.o.p_switch <= 0:
            return None
        r = self.d.rng('gap')
        p = self.o.p_switch
        gap = 1
        if p < 1:
            import math
            u = r.random() or 1e-12
            gap = max(1, int(math.log(u) / math.log(1 - p)) + 1)
        return self.step + gap

    def _draw_inject_gap(self):
        if self.d.replay or self.o.p_inject <= 0:
            return None
        r = self.d.rng('igap')
        return 1 + int(r.expovariate(self.o.p_inject))

    def spawn(self, fn, name, owner=None):
        t = SimThread(self, len(self.threads), fn, name, owner)
        self.threads.append(t)
        th = threading.Thread(target=self._boot, args=(t,), daemon=True)
        t.real = th
        th.start()
        return t

    def _boot(self, t):
        t.gate.acquire()
        self.by_ident[_thread.get_ident()] = t
        try:
            if not self.aborting:
                sys.settrace(self._trace)
                t.fn()
        except SimAbort:
            pass
        except BaseException as e:      # noqa
            t.error = e
        finally:
            sys.settrace(None)
            t.state = 'done'
            self.event('exit', t.name)
            self._leave(t)

    def _leave(self, t):
        nxt = self._pick_next()
        if nxt is None:
            self.current = None
            self.main_gate.release()
        else:
            self.current = nxt
            nxt.state = 'ready'
            nxt.gate.release()

    def _pick_next(self):
        """ thread to run when the current one cannot go on """
        if self.aborting:
            for t in self.threads:
                if t.state != 'done':
                    return t
            return None
        ready = [t for t in self.threads if t.state != 'done' and t.runnable()]
        if not ready:
            left = [t for t in self.threads if t.state != 'done']
            if left:
                self.deadlock = [t.name for t in left]
                self.abort('deadlock')
                return left[0]
            return None
        if len(ready) == 1:
            return ready[0]
        self.npick += 1
        k = self.d.decide('pick', self.npick, 0, lambda r: (
            r.randrange(len(ready)) if r.random() < self.o.p_forced else 0))
        return ready[k % len(ready)]

    def abort(self, why):
        if not self.aborting:
            self.aborting = why

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def _switch(self, me, target, where):
        self.nswitch += 1
        self.sched_hash.update(repr((me.tid, target.tid, where)).encode())
        self.event('switch', target.tid, where)
        self.current = target
        target.state = 'ready'
        target.gate.release()
        me.gate.acquire()
        if self.aborting:
            raise SimAbort(self.aborting)

    def yield_point(self, where, hot=False):
        me = self.current
        self.step += 1
        step = self.step
        if self.aborting:
            raise SimAbort(self.aborting)
        if step > self.o.step_limit:
            self.abort('step-limit')
            raise SimAbort('step-limit')
        if self.d.replay:
            k = self.d.table.get(('switch', step))
            if k is None:
                return
        else:
            go = False
            if self._next_switch is not None and step >= self._next_switch:
                self._next_switch = self._draw_gap()
                go = True
            if not go and hot and self.o.p_hot > 0:
                go = self.d.rng('hot').random() < self.o.p_hot
            if not go:
                return
            k = None
        if len(self.threads) == 1:
            return
        ready = [t for t in self.threads
                 if t is not me and t.state != 'done' and t.runnable()]
        if not ready:
            return
        if k is None:
            k = self.d.rng('target').randrange(len(ready))
            self.d.recorded.append(['switch', step, k])
        self._switch(me, ready[k % len(ready)], where)

    def pause(self, where):
        """ an environment thread lets the scheduler choose who goes on """
        me = self.current
        self.step += 1
        if self.aborting:
            raise SimAbort(self.aborting)
        ready = [me] + [t for t in self.threads
                        if t is not me and t.state != 'done' and t.runnable()]
        if len(ready) == 1:
            return
        self.npause += 1
        k = self.d.decide('pause', self.npause, 0, lambda r: r.randrange(len(ready)))
        k %= len(ready)
        if k:
            self._switch(me, ready[k], where)

    def block_until(self, pred, where):
        me = self.current
        if pred():
            return
        me.state, me.pred = 'blocked', pred
        while True:
            nxt = self._pick_next()
            if nxt is me:
                if self.aborting:
                    raise SimAbort(self.aborting)
                break
            self._switch(me, nxt, where)
            if pred():
                break
            me.state, me.pred = 'blocked', pred
        me.state, me.pred = 'ready', None

    # ---------------------------------------------------------------- tracing
    def _classify(self, co):
        fn = co.co_filename
        if not fn.startswith(self.prefix) or co.co_name == '<module>':
            self._codes[co] = False
            return False
        # the file's base name and the function name only: stable across edits
        name = fn[len(self.prefix):] + ':' + co.co_name
        h = int(hashlib.md5(f'{self.o.hot_salt}{name}'.encode()).hexdigest()[:6], 16)
        info = (name, h % self.o.hot_mod == 0)
        self._codes[co] = info
        return info

    def _trace(self, frame, event, arg):
        co = frame.f_code
        info = self._codes.get(co)
        if info is None:
            info = self._classify(co)
        if info is False:
            return None
        if self.o.opcodes:
            frame.f_trace_opcodes = True
        self._point(info, frame)
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self._point(self._codes[frame.f_code], frame)
        return self._local

    def _point(self, info, frame):
        me = self.current
        if me.notrace:
            return
        self.yield_point(info[0], info[1])
        if me.inject:
            self._maybe_inject(me, info[0], frame)

    def _maybe_inject(self, me, where, frame):
        """ asynchronous exception (cancellation, failing allocation) """
        me.isteps = getattr(me, 'isteps', 0) + 1
        key = f'{me.tid}:{me.isteps}'
        if self.d.replay:
            kind = self.d.table.get(('inject', key))
            if kind is None:
                return
        else:
            if self._next_inject is None or me.isteps < self._next_inject:
                return
            if _cleaning_up(frame, self.prefix):
                return
            kinds = me.inject
            kind = kinds[self.d.rng('inject').randrange(len(kinds))]
            self.d.recorded.append(['inject', key, kind])
        me.inject = False
        self.ninject += 1
        self.inject_log.append((kind, where))
        self.event('inject', kind, where)
        raise {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError,
               }[kind]('injected by the simulator')

    def rearm(self):
        """ tracing is switched off by CPython when a trace function raises """
        sys.settrace(self._trace)

    # -------------------------------------------------------------------- run
    def run(self, wall=120):
        """ run all spawned threads to completion """
        Sim.active = self
        try:
            first = self._pick_next()
            if first is None:
                return
            self.current = first
            first.gate.release()
            if not self.main_gate.acquire(timeout=wall):
                self.abort('wall')
                import faulthandler
                faulthandler.dump_traceback(all_threads=True)
                raise WallTimeout('a simulated run did not finish in %d s' % wall)
        finally:
            Sim.active = None
        for t in self.threads:
            t.real.join(10)


class WallTimeout(Exception):
    pass


def current_sim():
    """ the running Sim when called from one of its threads """
    s = Sim.active
    if s is None:
        return None
    if s.by_ident.get(_thread.get_ident()) is None:
        return None
    return s


# ------------------------------------------------------------------------ locks
class SimLock:
    """ replaces threading.Lock for locks created by razorback or dask """
    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = current_sim()
        me = s.current if s else _thread.get_ident()
        if s:
            s.yield_point('lock.acquire')
        if self._count and not (self.reentrant and self._owner == me):
            if not blocking:
                return False
            if s is None:
                raise RuntimeError('lock held outside of the simulation')
            s.block_until(lambda: not self._count, 'lock.wait')
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if not self._count:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if not self._count:
            self._owner = None
        s = current_sim()
        if s and not s.aborting:
            s.yield_point('lock.release')

    def locked(self):
        return bool(self._count)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True


def _from_target():
    name = sys._getframe(2).f_globals.get('__name__', '')
    return name.split('.')[0] in ('razorback', 'dask')


def patched_lock():
    return SimLock() if _from_target() else REAL_LOCK()


def patched_rlock():
    return SimRLock() if _from_target() else REAL_RLOCK()


def install_locks():
    """ must run before razorback and dask are imported """
    assert 'razorback' not in sys.modules and 'dask' not in sys.modules
    threading.Lock = patched_lock
    threading.RLock = patched_rlock


# ----------------------------------------------------------------------- stdout
class ThreadedStdout:
    """ sends the prints of simulated threads to their own buffer """

    encoding = 'utf-8'
    errors = 'strict'

    def __init__(self, real):
        self.real = real

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('write() argument must be str')
        sim = Sim.active
        t = sim.by_ident.get(_thread.get_ident()) if sim else None
        if t is None:
            return self.real.write(s)
        t.out.append(s)
        if len(t.out) > 2000:
            del t.out[:1000]
        return len(s)

    def flush(self):
        self.real.flush()

    def isatty(self):
        return False

    def fileno(self):
        return self.real.fileno()

    @property
    def buffer(self):
        return self.real.buffer
