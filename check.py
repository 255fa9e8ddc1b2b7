#!/usr/bin/env python3
""" check.py PROPERTY [--tier quick|thorough] [--seed N] [--runs N] [--replay FILE]

Explores simulated executions of /repo for one property.
Exit 0: the property held on everything explored.  Exit 1: violated, with a line
`VIOLATION property=<id> replay=<path>`.  Exit 2: the check itself failed.
"""
import argparse
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = '/opt/venv/bin/python'
NSHARDS = 8
sys.path.insert(0, HERE)
from rzsim.plan import PLAN     # noqa: E402


def env_for(shard):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=str(1000 + 7 * shard), PYTHONDONTWRITEBYTECODE='1',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONPATH=HERE,
               PYTHONFAULTHANDLER='1', LC_ALL='C.UTF-8')
    env.pop('PYTHONINSPECT', None)
    return env


def spawn(args, shard, log):
    return subprocess.Popen([PYTHON, '-m', 'rzsim.worker'] + [str(a) for a in args],
                            env=env_for(shard), cwd=HERE, stdin=subprocess.DEVNULL,
                            stdout=log, stderr=subprocess.STDOUT, start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def wait(p, limit):
    try:
        return p.wait(limit)
    except subprocess.TimeoutExpired:
        kill(p)
        return None


def known_findings(pid):
    path = os.path.join(HERE, 'known_findings.json')
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get('findings', []) if e['property'] == pid]


def matches(finding, case):
    return (finding['kind'] == case['kind']
            and re.search(finding['msg_regex'], case['msg']) is not None)


def replay_once(work, path, shard, limit=300):
    out = os.path.join(work, 'replay.out')
    if os.path.exists(out):
        os.unlink(out)
    with open(os.path.join(work, 'replay.log'), 'w') as log:
        rc = wait(spawn(['replay', path, out], shard, log), limit)
    if os.path.exists(out):
        with open(out) as f:
            return rc, json.load(f)
    return rc, None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--setup', action='store_true', help='check that the simulator can start')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--cap', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    if a.setup:
        return subprocess.call([PYTHON, '-c', 'import rzsim.boot as b; b.install(); '
                                'print("simulator ready:", b.rzb.__file__)'],
                               cwd=HERE, env=env_for(0))
    pid = a.prop
    t0 = time.monotonic()
    plan = PLAN[pid]
    work = tempfile.mkdtemp(prefix=f'rzsim-work-{pid}-')
    try:
        if a.replay:
            return do_replay(a, pid, work)
        return do_check(a, pid, plan, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def do_replay(a, pid, work):
    with open(a.replay) as f:
        case = json.load(f)
    rc, res = replay_once(work, os.path.abspath(a.replay), case['shard'])
    if res is None:
        if case['kind'] in ('process-death', 'hang'):
            print(f'{case["kind"]} reproduced (status {rc})')
            print(f'VIOLATION property={pid} replay={a.replay}')
            return 1
        with open(os.path.join(work, 'replay.log')) as f:
            print(f.read()[-4000:])
        return 2
    for line in res['log'][-60:]:
        print('  ', line)
    if res['violation']:
        same = res['digest'] == case['digest']
        print(f"{res['violation']['kind']}: {res['violation']['msg']}")
        print(f"execution digest {res['digest']} "
              f"({'identical to' if same else 'DIFFERS from'} the recorded one)")
        print(f'VIOLATION property={pid} replay={a.replay}')
        return 1
    print('no violation in this replay')
    return 0


def do_check(a, pid, plan, work, t0):
    tier = a.tier
    nruns = a.runs or plan[tier]['runs']
    cap = a.cap or plan[tier].get('cap', 240 if tier == 'quick' else 3000)
    seed = a.seed
    procs = []
    for s in range(NSHARDS):
        out = os.path.join(work, f'out{s}')
        log = open(os.path.join(work, f'log{s}'), 'w')
        procs.append([s, spawn(['run', pid, tier, seed, s, NSHARDS, nruns, cap, out],
                               s, log), out, log, None])
    results, dead = {}, []
    first = None
    while any(p[4] is None for p in procs):
        for p in procs:
            if p[4] is None and p[1].poll() is not None:
                p[4] = p[1].returncode
                if p[4] == 0 and os.path.exists(p[2]):
                    with open(p[2]) as f:
                        results[p[0]] = json.load(f)
                    if results[p[0]]['violation'] and first is None:
                        first = time.monotonic()
                else:
                    dead.append((p[0], p[4]))
        late = time.monotonic() - t0 > cap + 180
        if late or (first and time.monotonic() - first > 3):
            for p in procs:
                if p[4] is None:
                    kill(p[1])
                    p[4] = -9
                    if late and not first:
                        dead.append((p[0], 'timeout'))
        time.sleep(0.05)

    status, lines = judge(a, pid, work, results, dead, seed, tier, nruns)
    write_evidence(a, pid, plan, tier, seed, results, t0, status, dead)
    for ln in lines:
        print(ln)
    return status


def tail(work, shard, n=3000):
    try:
        with open(os.path.join(work, f'log{shard}')) as f:
            return f.read()[-n:]
    except OSError:
        return ''


def judge(a, pid, work, results, dead, seed, tier, nruns):
    lines = []
    known = known_findings(pid)
    for e in known:
        lines.append(f"KNOWN-FINDING: property={pid} {e['what']}")
    cands = sorted((r['violation']['run'], s, r['violation'])
                   for s, r in results.items() if r['violation'])
    fresh = []
    for run, s, v in cands:
        if any(matches(e, v) for e in known):
            continue
        fresh.append((run, s, v))
    if fresh:
        run, s, v = fresh[0]
        return 1, lines + report(a, pid, work, s, v, seed, tier)
    for s, r in sorted(results.items()):
        if r['harness']:
            print(f"harness error in shard {s}, run {r['harness']['run']}:\n"
                  f"{r['harness']['error'][-3000:]}")
            return 2, lines
    hangs = [(s, r['hang']) for s, r in results.items() if r.get('hang')]
    if hangs:
        s, h = hangs[0]
        case = dict(property=pid, shard=s, seed=seed, tier=tier, kind='hang', digest='',
                    msg='the run never finishes', workload=h['workload'],
                    decisions=h['decisions'], run=h['run'], run_seed=h['run_seed'])
        path = save_replay(pid, case)
        rc, res = replay_once(work, path, s, 200)
        if res is None:
            return 1, lines + [f'hang: run {h["run"]} does not finish (reproduced)',
                               f'VIOLATION property={pid} replay={path}']
        print('a run timed out once and could not be reproduced')
        return 2, lines
    for s, rc in dead:
        got = probe_death(pid, work, s, rc, seed, tier, nruns)
        if got:
            return 1, lines + got
        print(f'worker {s} died with status {rc}:\n{tail(work, s)}')
        return 2, lines
    return 0, lines


def probe_death(pid, work, s, rc, seed, tier, nruns):
    """ a worker killed by SIGBUS, SIGSEGV, SIGFPE or SIGABRT: reproduce it """
    if not (isinstance(rc, int) and rc < 0 and -rc in (4, 6, 7, 8, 11)):
        return None
    try:
        with open(os.path.join(work, f'out{s}.mark')) as f:
            run = int(f.read().split()[0])
    except (OSError, ValueError, IndexError):
        return None
    for _ in range(2):
        out = os.path.join(work, 'death')
        with open(os.path.join(work, 'death.log'), 'w') as log:
            rc2 = wait(spawn(['run', pid, tier, seed, run, 10 ** 9, run + 1, 600, out],
                             s, log), 300)
        if rc2 != rc:
            return None
    case = dict(property=pid, shard=s, seed=seed, tier=tier, kind='process-death',
                msg=f'the process dies with signal {-rc}', run=run, digest='')
    path = save_replay(pid, case)
    return [f'process-death: run {run} kills the process with signal {-rc} (reproduced twice)',
            f'VIOLATION property={pid} replay={path}']


def save_replay(pid, case):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-seed{case['seed']}-run{case['run']}.json")
    with open(path, 'w') as f:
        json.dump(case, f, indent=1)
    return path


def report(a, pid, work, shard, v, seed, tier):
    case = dict(property=pid, shard=shard, seed=seed, tier=tier, **v)
    raw = os.path.join(work, 'case.json')
    mini = os.path.join(work, 'mini.json')
    with open(raw, 'w') as f:
        json.dump(case, f)
    budget = 45 if tier == 'quick' else 240
    with open(os.path.join(work, 'mini.log'), 'w') as log:
        wait(spawn(['minimise', raw, mini, budget], shard, log), budget + 120)
    note = 'not minimised'
    if os.path.exists(mini):
        with open(mini) as f:
            m = json.load(f)
        if m.get('minimised'):
            note = (f"minimised from {len(case['decisions'])} to {len(m['decisions'])} "
                    f"decisions in {m['tries']} replays")
            case = m
    path = save_replay(pid, case)
    rc, res = replay_once(work, path, shard)
    if res and res['violation']:
        exact = res['digest'] == case['digest']
        conf = 'replayed in a fresh process: ' + ('identical execution' if exact else
                                                  'same violation, different digest')
    else:
        conf = 'the replay in a fresh process did not show it'
    return [f"{pid}: run {case['run']} (seed {seed}, run seed {case['run_seed']})",
            f"  {case['kind']}: {case['msg']}",
            f"  {note}; {conf}",
            f"VIOLATION property={pid} replay={path}"]


def write_evidence(a, pid, plan, tier, seed, results, t0, status, dead):
    if a.no_evidence:
        return
    tot = dict(runs=0, invalid=0, steps=0, switches=0, nfaults=0, checks=0, seconds=0.,
               nontrivial=0, with_fault=0, with_switch=0, replay_checked=0)
    faults, ops, probes, injected, samples, mism = {}, {}, {}, {}, [], []
    cases, scheds, threads, trunc = set(), set(), 0, False
    for s in sorted(results):
        r = results[s]
        g = r['agg']
        for k in tot:
            tot[k] += g[k]
        for dst, src in ((faults, 'faults'), (ops, 'ops'), (probes, 'probes'),
                         (injected, 'injected')):
            for n, v in g[src].items():
                dst[n] = dst.get(n, 0) + v
        cases.update(r['cases'])
        scheds.update(r['scheds'])
        threads = max(threads, g['threads'])
        trunc = trunc or g['truncated']
        mism += g['replay_mismatch']
        samples += g['samples']
    wall = time.monotonic() - t0
    cov = dict(
        evaluations=tot['runs'], distinct_nontrivial=len(cases),
        rule=('one case = one simulated run: a generated workload, the interleaving the '
              'scheduler chose and the faults that fired; it is non-trivial when at least one '
              'context switch, fault or injected exception (or, where stated, one adversarial '
              'environment step) happened; cases are distinct when workload, schedule hash or '
              'fault trace differ'),
        samples=samples[:4],
        rejected_workloads=tot['invalid'],
        runs_per_hour=round(tot['runs'] / wall * 3600),
        seeds_per_hour=round(tot['runs'] / wall * 3600),
        distinct_interleavings=len(scheds),
        interleaving_measure='hash of the sequence of (from, to, place) context switches and '
                             'dask task picks of a run',
        simulated_steps=tot['steps'],
        simulated_recording_seconds=round(tot['seconds'], 1),
        context_switches=tot['switches'], max_threads=threads,
        runs_with_fault=tot['with_fault'], runs_with_switch=tot['with_switch'],
        faults_fired=faults, exceptions_injected=injected, disk_operations=ops,
        oracle_comparisons=tot['checks'], probes=probes,
        determinism=dict(runs_replayed_from_decisions=tot['replay_checked'],
                         mismatches=len(mism)),
        stopped_by_wall_cap=trunc,
        components=dict(
            real=plan['real'], stub=plan['stub']),
    )
    ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed,
              level=plan.get('level', 'exploration'), coverage=cov,
              assumptions=plan['assumptions'], wall_s=round(wall, 2),
              violations=1 if status == 1 else 0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    sys.exit(main())
