""" Runs simulated executions in this process.  `python -m rzsim.worker CMD ...` """
import fcntl
import gc
import hashlib
import importlib
import json
import os
import pickle
import select
import shutil
import signal
import sys
import time
import traceback

from . import boot, core
from .core import Decider, InvalidWorkload, Violation, stream
from .ctx import Ctx

BASES = ('/dev/shm', '/tmp')


class Scratch:
    """ a scratch directory whose name is the same in every execution """

    def __init__(self, prop, tag):
        base = next(b for b in BASES if os.access(b, os.W_OK))
        for k in range(64):
            self.dir = f'{base}/rzsim-{prop}-{tag}-{k}'
            os.makedirs(self.dir, exist_ok=True)
            self.fd = boot.disk.REAL['os_open'](self.dir + '/.lock', os.O_CREAT | os.O_RDWR)
            try:
                fcntl.flock(self.fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
                return
            except OSError:
                os.close(self.fd)
        raise SystemExit('no scratch directory')

    stop = None

    def close(self):
        if self.stop:
            self.stop()
        shutil.rmtree(self.dir, ignore_errors=True)
        os.close(self.fd)


def load_prop(pid):
    return importlib.import_module('rzsim.props.' + pid.lower())


def begin(prop, pid, tag):
    """ scratch directory, helper processes """
    boot.install()
    scratch = Scratch(pid, tag)
    if hasattr(prop, 'start'):
        scratch.stop = prop.start(scratch.dir)
    return scratch


def in_razorback(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(boot.PREFIX):
            return True
        tb = tb.tb_next
    return False


class HarnessError(Exception):
    pass


def execute(prop, workload, decider, root, keep_log=False):
    """ one simulated run -> dict """
    ctx = Ctx(prop, workload, decider, root, keep_log)
    viol = None
    try:
        ctx.setup()
        try:
            prop.run(ctx)
        except Violation as v:
            viol = {'kind': v.kind, 'msg': v.msg}
        except InvalidWorkload:
            raise
        except core.WallTimeout:
            raise
        except Exception as e:
            text = ''.join(traceback.format_exception(e))
            if in_razorback(e.__traceback__):
                viol = {'kind': 'crash:' + type(e).__name__,
                        'msg': f'unexpected {type(e).__name__}: {e}\n{text[-1500:]}'}
            elif isinstance(e, (TypeError, AttributeError, ValueError, LookupError)):
                # what the system returned has not even the form the oracle expects
                viol = {'kind': 'malformed:' + type(e).__name__,
                        'msg': f'the oracle cannot read a result: {e}\n{text[-1500:]}'}
            else:
                raise HarnessError(text)
        ctx.disk.heal_all()
    finally:
        ctx.cleanup()
    sim, disk = ctx.sim, ctx.disk
    return dict(
        violation=viol, digest=sim.log.hexdigest()[:24],
        sched=sim.sched_hash.hexdigest()[:16], steps=sim.step, switches=sim.nswitch,
        threads=len(sim.threads), faults=disk.fired_kinds, nfaults=len(disk.fired),
        injected=[k for k, _ in sim.inject_log], ops=disk.opkinds, probes=sim.probes,
        checks=ctx.checks, seconds=ctx.simulated_seconds,
        fired=[list(f) for f in disk.fired], log=sim.keep_log)


class Died(Exception):
    """ the process of one run ended without an answer """

    def __init__(self, status):
        super().__init__(f'the process of the run ended with status {status}')
        self.signal = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0


PASSED_ON = (InvalidWorkload, HarnessError, core.WallTimeout)


def isolated(prop, workload, decider, root, keep_log=False, limit=330):
    """ execute() in a process of its own: no run sees what another left in memory.
    Returns (result, recorded decisions) """
    sys.stdout.flush()
    rfd, wfd = os.pipe()
    pid = os.fork()
    if not pid:
        status = 1
        try:
            os.close(rfd)
            try:
                got = execute(prop, workload, decider, root, keep_log), decider.recorded
            except PASSED_ON as e:
                got = (type(e), str(e)), decider.recorded
            with boot.disk.REAL['open'](wfd, 'wb') as f:
                pickle.dump(got, f, protocol=4)
            status = 0
        except BaseException:       # noqa
            traceback.print_exc()
            sys.stderr.flush()
        finally:
            os._exit(status)
    os.close(wfd)
    buf, end = [], time.monotonic() + limit
    late = False
    while True:
        ready, _, _ = select.select([rfd], [], [], max(0., end - time.monotonic()))
        if not ready:
            late = True
            os.kill(pid, signal.SIGKILL)
            break
        part = os.read(rfd, 1 << 20)
        if not part:
            break
        buf.append(part)
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    if late:
        raise core.WallTimeout(f'a run did not finish in {limit} s')
    if status:
        raise Died(status)
    res, recorded = pickle.loads(b''.join(buf))
    if isinstance(res, tuple):
        e = res[0](res[1])
        e.recorded = recorded
        raise e
    return res, recorded


def run_seed(seed, pid, r):
    h = hashlib.sha256(f'{seed}/{pid}/{r}'.encode()).digest()
    return int.from_bytes(h[:7], 'big')


def case_key(workload, res):
    h = hashlib.sha256(json.dumps(workload, sort_keys=True).encode())
    h.update(res['sched'].encode())
    h.update(repr([f[2:] for f in res['fired']]).encode())
    h.update(repr(res['injected']).encode())
    return h.hexdigest()[:16]


def cmd_run(args):
    pid, tier, seed, shard, nshards, nruns, deadline, out = (
        args[0], args[1], int(args[2]), int(args[3]), int(args[4]), int(args[5]),
        float(args[6]), args[7])
    prop = load_prop(pid)
    scratch = begin(prop, pid, f's{shard}')
    t0 = time.monotonic()
    agg = dict(runs=0, invalid=0, steps=0, switches=0, nfaults=0, faults={}, ops={},
               probes={}, injected={}, checks=0, seconds=0., threads=0, nontrivial=0,
               with_fault=0, with_switch=0, replay_checked=0, replay_mismatch=[],
               samples=[], truncated=False, tmax=0.)
    cases, scheds = set(), set()
    result = dict(agg=agg, violation=None, harness=None)
    gc.collect()
    gc.freeze()
    gc.disable()
    mark = open(out + '.mark', 'w')
    for r in range(shard, nruns, nshards):
        if time.monotonic() - t0 > deadline:
            agg['truncated'] = True
            break
        rs = run_seed(seed, pid, r)
        mark.seek(0)
        mark.write('%d\n' % r)
        mark.flush()
        workload = prop.gen(stream(rs, 'workload'), tier)
        d = Decider(rs)
        tr = time.monotonic()
        try:
            res, recorded = isolated(prop, workload, d, scratch.dir)
        except InvalidWorkload:
            agg['invalid'] += 1
            continue
        except core.WallTimeout as e:
            result['hang'] = dict(run=r, run_seed=rs, workload=workload,
                                  decisions=getattr(e, 'recorded', []), msg=str(e))
            break
        except Died as e:
            if e.signal in (4, 6, 7, 8, 11):
                os.kill(os.getpid(), e.signal)      # investigated by check.py
            result['harness'] = dict(run=r, run_seed=rs, error=str(e), workload=workload)
            break
        except HarnessError as e:
            result['harness'] = dict(run=r, run_seed=rs, error=str(e), workload=workload)
            break
        agg['tmax'] = max(agg['tmax'], time.monotonic() - tr)
        agg['runs'] += 1
        for k in ('steps', 'switches', 'nfaults', 'checks', 'seconds'):
            agg[k] += res[k]
        agg['threads'] = max(agg['threads'], res['threads'])
        for k in ('faults', 'ops', 'probes'):
            for n, v in res[k].items():
                agg[k][n] = agg[k].get(n, 0) + v
        for k in res['injected']:
            agg['injected'][k] = agg['injected'].get(k, 0) + 1
        hit = res['nfaults'] or res['injected'] or res['faults']
        agg['with_fault'] += bool(hit)
        agg['with_switch'] += bool(res['switches'])
        if hit or res['switches'] or res['probes'].get('nontrivial'):
            agg['nontrivial'] += 1
            cases.add(case_key(workload, res))
        scheds.add(res['sched'])
        if len(agg['samples']) < 2 and (hit or res['switches']):
            agg['samples'].append(dict(run=r, run_seed=rs, workload=workload,
                                       decisions=recorded[:20],
                                       ndecisions=len(recorded), faults=res['fired'][:6],
                                       steps=res['steps']))
        if res['violation']:
            result['violation'] = dict(run=r, run_seed=rs, workload=workload,
                                       decisions=recorded, digest=res['digest'],
                                       **res['violation'])
            break
        if agg['runs'] % 20 == 1:
            # the recorded decisions alone must reproduce the run exactly
            try:
                res2, _ = isolated(prop, workload, Decider(None, recorded), scratch.dir)
                agg['replay_checked'] += 1
                if res2['digest'] != res['digest']:
                    agg['replay_mismatch'].append(r)
            except (HarnessError, InvalidWorkload, core.WallTimeout, Died):
                agg['replay_mismatch'].append(r)
    agg['wall'] = time.monotonic() - t0
    result['cases'] = sorted(cases)
    result['scheds'] = sorted(scheds)
    with open(out, 'w') as f:
        json.dump(result, f)
    scratch.close()
    sys.stdout.flush()
    os._exit(0)


def try_replay(prop, case, scratch, keep_log=False):
    try:
        return isolated(prop, case['workload'], Decider(None, case['decisions']),
                        scratch.dir, keep_log)[0]
    except (InvalidWorkload, HarnessError, core.WallTimeout, Died):
        return None


def cmd_replay(args):
    """ replay FILE OUT: run the recorded decisions """
    with open(args[0]) as f:
        case = json.load(f)
    prop = load_prop(case['property'])
    scratch = begin(prop, case['property'], f"s{case['shard']}")
    gc.collect()
    gc.disable()
    try:
        res = execute(prop, case['workload'], Decider(None, case['decisions']),
                      scratch.dir, keep_log=True)
    finally:
        scratch.close()
    with open(args[1], 'w') as f:
        json.dump(res, f)
    sys.stdout.flush()
    os._exit(0)


# ------------------------------------------------------------------- minimise
def _lists(obj, patterns):
    """ paths of the shrinkable lists of a workload: `a.*.b` patterns """
    for pat in patterns:
        todo = [((), obj, pat.split('.'))]
        while todo:
            path, o, rest = todo.pop(0)
            if not rest:
                if isinstance(o, list):
                    yield path
                continue
            if rest[0] == '*':
                items = list(enumerate(o)) if isinstance(o, list) else (
                    list(o.items()) if isinstance(o, dict) else [])
            else:
                items = [(rest[0], o[rest[0]])] if isinstance(o, dict) and rest[0] in o else []
            todo += [(path + (k,), v, rest[1:]) for k, v in items]


def _at(obj, path):
    for p in path:
        obj = obj[p]
    return obj


def cmd_minimise(args):
    """ minimise FILE OUT BUDGET: smaller decisions and workload, same kind """
    with open(args[0]) as f:
        case = json.load(f)
    budget = float(args[2])
    t0 = time.monotonic()
    prop = load_prop(case['property'])
    scratch = begin(prop, case['property'], f"s{case['shard']}")
    gc.collect()
    gc.freeze()
    gc.disable()
    kind = case['kind']
    ntry = [0]

    def left():
        return time.monotonic() - t0 < budget

    def good(workload, decisions):
        ntry[0] += 1
        res = try_replay(prop, dict(workload=workload, decisions=decisions), scratch)
        if res and res['violation'] and res['violation']['kind'] == kind:
            return res
        return None

    wl, dec = case['workload'], case['decisions']
    best = good(wl, dec)
    if best is not None:
        def shrink_dec(dec):
            nonlocal best
            n = 2
            if dec:
                r = good(wl, [])
                if r:
                    best = r
                    return []
            while len(dec) >= 2 and left():
                size = max(1, len(dec) // n)
                for i in range(0, len(dec), size):
                    cand = dec[:i] + dec[i + size:]
                    r = good(wl, cand)
                    if r:
                        dec, best = cand, r
                        n = max(2, n - 1)
                        break
                    if not left():
                        break
                else:
                    if size == 1:
                        break
                    n = min(len(dec), n * 2)
            return dec

        def shrink_wl(wl, dec):
            nonlocal best
            changed = False
            for path in list(_lists(wl, prop.SHRINK)):
                try:
                    i = len(_at(wl, path)) - 1
                except (KeyError, IndexError, TypeError):
                    continue
                while i >= 0 and left():
                    cand = json.loads(json.dumps(wl))
                    try:
                        del _at(cand, path)[i]
                    except (KeyError, IndexError, TypeError):
                        break
                    r = good(cand, dec)
                    if r:
                        wl, best, changed = cand, r, True
                    i -= 1
            for knob, val in (('opcodes', False), ('workers', 1), ('workers', 2)):
                old = wl.get('sim', {}).get(knob)
                if old is not None and old > val and left():
                    cand = json.loads(json.dumps(wl))
                    cand['sim'][knob] = val
                    r = good(cand, dec)
                    if r:
                        wl, best, changed = cand, r, True
            return wl, changed

        dec = shrink_dec(dec)
        while left():
            wl, changed = shrink_wl(wl, dec)
            dec2 = shrink_dec(dec)
            if not changed and len(dec2) == len(dec):
                break
            dec = dec2
        res = good(wl, dec)
        case.update(workload=wl, decisions=dec, digest=res['digest'],
                    msg=res['violation']['msg'], minimised=True, tries=ntry[0])
    else:
        case.update(minimised=False)
    scratch.close()
    with open(args[1], 'w') as f:
        json.dump(case, f, indent=1)
    sys.stdout.flush()
    os._exit(0)


def cmd_determinism(args):
    """ determinism PROP SEED NRUNS TAG OUT: digests of runs """
    pid, seed, nruns, tag, out = args[0], int(args[1]), int(args[2]), args[3], args[4]
    prop = load_prop(pid)
    scratch = begin(prop, pid, 'det' + tag)
    gc.disable()
    digs = []
    for r in range(nruns):
        rs = run_seed(seed, pid, r)
        wl = prop.gen(stream(rs, 'workload'), 'quick')
        try:
            res, _ = isolated(prop, wl, Decider(rs), scratch.dir)
            digs.append([r, res['digest'], res['steps'],
                         res['violation'] and res['violation']['kind']])
        except InvalidWorkload:
            digs.append([r, 'invalid', 0, None])
        except (HarnessError, core.WallTimeout, Died) as e:
            digs.append([r, 'harness', 0, str(e)[-300:]])
    with open(out, 'w') as f:
        json.dump(digs, f)
    scratch.close()
    os._exit(0)


if __name__ == '__main__':
    cmd = dict(run=cmd_run, replay=cmd_replay, minimise=cmd_minimise,
               determinism=cmd_determinism)[sys.argv[1]]
    cmd(sys.argv[2:])
