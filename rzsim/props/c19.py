""" C19: objects sent to other processes behave as the originals. """
import base64
import copy
import os
import pickle
import random

import cloudpickle
import numpy as np

from .. import boot, mt, peer, ref, survey, world
from ..core import InvalidWorkload
from ..survey import MInv, Refuse, Unknown
from .c07 import cal_files

rzb = boot.rzb
ID = 'C19'
SHRINK = ['clients', 'clients.*', 'sites', 'sites.*.runs']
HASHSEED = 77
PEERS = None
KINDS = ['edit'] * 5 + ['show'] * 4 + ['back'] * 3 + ['copy'] * 3 + [
    'inv', 'inv', 'tags', 'imp', 'imp', 'fit', 'fit', 'cals', 'raw', 'raw', 'spectrum', 'compute']


def start(base):
    global PEERS
    PEERS = peer.Peers(ID, base)
    PEERS.start([HASHSEED])
    return PEERS.stop


def gen(rng, tier):
    w = survey.gen_sites(rng, nsites=rng.choice([1, 2, 2]), max_runs=3)
    names = [n for s in w['sites'] for n in s['names'] if n]
    names += [g for s in w['sites'] for g in s['groups']] + ['nope']
    s = mt.gen_survey(rng, n=rng.choice([128, 160]), shapes=[(2, 2), (1, 2), (1, 1)])
    clients = []
    for _ in range(rng.choice([1, 1, 2])):
        ops = []
        for _ in range(rng.randint(2, 7)):
            k = rng.choice(KINDS)
            op = dict(k=k, i=rng.randrange(99), v=rng.randrange(1 << 20),
                      # how the object travels
                      how=rng.choice(['cloudpickle', 'cloudpickle', 'deepcopy', 'copy']),
                      edit=survey.gen_op(rng, names), disk=None)
            if rng.random() < .3:
                op['disk'] = world.disk_cfg(rng, ['eio', 'emfile', 'enomem', 'memerr', 'cut', 'vanish'],
                                            p_none=0)
            if k in ('imp', 'fit', 'spectrum'):
                o = mt.gen_opts(rng, s)
                o['fourier']['Nper'] = rng.choice([2, 3])
                op['opts'] = o
                op['freqs'] = [mt.gen_freq(rng, s, o['fourier'], 10, 24)]
                op['used'] = rng.random() < .5
            if k == 'raw':
                op['slices'] = [world.gen_slice(rng, 60) for _ in range(3)]
            ops.append(op)
        clients.append(ops)
    sim = world.sim_opts(rng)
    sim.pop('opcodes', None)
    w.update(survey=s, clients=clients, sim=sim,
             cal=dict(seed=rng.randrange(1 << 20)), ship=rng.random() < .6,
             disk={}, peer_sim=world.sim_opts(rng), chunk_size=rng.choice(['128MiB', '400B', '64B']))
    return w


def b64(b):
    return base64.b64encode(b).decode()


def encode(x):
    return b64(cloudpickle.dumps(x))


def decode(x):
    return pickle.loads(base64.b64decode(x))


def run(ctx):
    w = ctx.w
    base = []
    for i in range(len(w['sites'])):
        if not w['sites'][i]['runs']:
            raise InvalidWorkload
        try:
            base.append(survey.build_site(ctx, w, i))
        except (Refuse, Unknown):
            raise InvalidWorkload
    s = w['survey']
    mtset = mt.build_survey(ctx, s, 'mt')
    arrs = mt.survey_arrays(s)
    p1, p2 = cal_files(ctx, w['cal'])
    os.chdir(ctx.root)
    cals = [rzb.calibrations.metronix('MFS06_1.txt', 128.), rzb.calibrations.metronix('MFS06_1.txt', 4096.)]
    cals += rzb.calibrations.phoenix('box.cts', 2)
    at = [3.7, 20., 111., 400.]

    def values(fs):
        out = []
        for f in fs:
            for x in at:
                try:
                    out.append(complex(f(x)))
                except ValueError:
                    out.append('out of range')
        return out
    cal_want = values(cals)
    os.unlink(p1)       # a loaded function does not need its file
    os.unlink(p2)
    raws = []
    for k in range(2):
        spec = world.gen_ats_fixed(k)
        world.write_ats(ctx, spec, f'raw/{k}.ats')
        os.chdir(ctx.path('raw'))       # loaded by a relative name
        raws.append((rzb.io.binary_file_array.BinaryFileArray_1D(f'{k}.ats', 1024, 50, np.int32),
                     world.ats_raw(spec)))
        os.chdir(ctx.root)
    os.makedirs(ctx.path('elsewhere'))
    os.chdir(ctx.path('elsewhere'))
    if w['ship']:       # chunks are evaluated by other processes
        ctx.sim.o.ship = True

    def abroad(op, job, obj, label, **k):
        """ do `job` on the object in another process """
        if op['how'] != 'cloudpickle':
            f = {'copy': copy.copy, 'deepcopy': copy.deepcopy}[op['how']]
            o = ctx.attempt(f'{op["how"]} for {label}', lambda: f(obj))
            ctx.must_succeed(o)
            with ctx.quiet():
                return JOBS[job](o.value, **k)
        o = ctx.attempt(f'send for {label}', lambda: encode((obj, k)))
        ctx.must_succeed(o)
        ctx.probe('sent')
        inner = dict(job=job, blob=o.value, sim=w['peer_sim'], disk=op['disk'] or {},
                     shared=os.path.dirname(ctx.root), chunk_size=w['chunk_size'])
        root = os.path.join(os.path.dirname(ctx.root), 'peer')
        for retry in (False, True):
            ans = PEERS.ask(HASHSEED, dict(workload=inner, seed=op['v'], root=root))
            if ans is None or 'harness' in ans:
                raise RuntimeError((ans or {}).get('harness', 'the peer ended without an answer'))
            if ans.get('violation'):
                ctx.fail(ans['violation']['kind'], f'{label}, elsewhere: {ans["violation"]["msg"]}')
            ctx.sim.step += ans['steps']
            ctx.sim.nswitch += ans['switches']
            ctx.sim.sched_hash.update(ans['sched'].encode())
            for mine, its in ((ctx.disk.opkinds, ans['ops']), (ctx.disk.fired_kinds, ans['faults'])):
                for n, v in its.items():
                    mine[n] = mine.get(n, 0) + v
            (got,) = ans['obs']
            ctx.sim.event('abroad', job, got['ok'], got['error'])
            if got['ok']:
                return decode(got['value'])
            if retry or not got['excused']:
                ctx.fail('unusable', f'{label} in another process: {got["error"]}')
            ctx.probe('retried elsewhere')
            inner['disk'] = {}          # the faults are over

    def client(ops):
        pool = list(base)
        for k, op in enumerate(ops):
            ctx.probe('op ' + op['k'])
            x, m = pool[op['i'] % len(pool)]
            label = f'operation {k} ({op["k"]})'
            if op['k'] == 'edit':
                lab, ins, real, model = survey.prepare(op['edit'], pool)
                try:
                    want = model()
                except (Refuse, Unknown):
                    continue
                o = ctx.attempt(lab, real)
                ctx.must_succeed(o)
                pool.append((o.value, want))
                continue
            if op['k'] == 'show':
                with ctx.quiet():
                    seen = survey.digest(x)
                got = abroad(op, 'show', x, label)
                check_shown(ctx, got, m, label)
                with ctx.quiet():
                    if survey.digest(x) != seen:
                        ctx.fail('modified', f'{label}: sending modified the original')
            elif op['k'] == 'back':     # edited elsewhere, sent back
                lab, ins, real, model = survey.prepare(op['edit'], pool)
                try:
                    want = model()
                except (Refuse, Unknown):
                    continue
                got = abroad(op, 'edit', [a for a, _ in pool], f'{label} {lab}', edit=op['edit'],
                             models=[b for _, b in pool])
                with ctx.quiet():
                    survey.check_meta(ctx, got, want, f'{label} {lab} done elsewhere')
                    survey.check_data(ctx, got, want, f'{label} {lab} done elsewhere')
                pool.append((got, want))
            elif op['k'] == 'copy':
                # neither side sees what is done to the other
                how = copy.deepcopy if op['how'] != 'cloudpickle' else (
                    lambda v: pickle.loads(cloudpickle.dumps(v)))
                o = ctx.attempt('duplicate', lambda: how(x))
                ctx.must_succeed(o)
                dup = o.value
                with ctx.quiet():
                    mine, other = (x, dup) if op['v'] % 2 else (dup, x)
                    before = survey.digest(other)
                    if op['v'] % 3 == 0 and m.n:
                        save = dict(mine.tags)
                        mine.tags['Mark'] = 0
                        if survey.digest(other) != before:
                            ctx.fail('aliased', f'{label}: tagging a duplicate reaches the other')
                        del mine.tags['Mark']
                        if dict(mine.tags) != save:
                            ctx.fail('tags', f'{label}: tags {mine.tags} after adding and deleting a tag')
                    survey.check_meta(ctx, dup, m, label)
                    survey.check_data(ctx, dup, m, label)
                pool.append((dup, m))
            elif op['k'] == 'inv':
                rng = random.Random(op['v'])
                sel = [rng.choice(pool) for _ in range(rng.choice([1, 2, 2]))]
                try:
                    want = MInv([b for _, b in sel]).pack()
                except (Refuse, Unknown):
                    continue
                inv = rzb.Inventory([a for a, _ in sel])
                if op['v'] % 2:
                    inv.tags        # whatever was asked before
                got = abroad(op, 'pack', inv, label)
                with ctx.quiet():
                    survey.by_tags(ctx, got, want, label)
            elif op['k'] == 'tags':
                got = abroad(op, 'tags', x.tags, label)
                if got != (dict(m.tags), sorted(x.tags.indices), True):
                    ctx.fail('tags', f'{label}: {got}, sent {m.tags}')
            elif op['k'] == 'cals':
                if abroad(op, 'cals', cals, label, at=at) != cal_want:
                    ctx.fail('calibration', f'{label}: calibrations differ in another process')
            elif op['k'] == 'raw':
                a, v = raws[op['v'] % 2]
                got = abroad(op, 'raw', a, label, slices=op['slices'])
                for sl, g in zip(op['slices'], got):
                    ctx.equal(g, v[world.as_index(sl)] if not isinstance(sl, int) or -50 <= sl < 50
                              else 'IndexError', f'{label} [{sl}]')
            elif op['k'] == 'compute':
                with ctx.quiet():
                    want = [r.cols for r in m.runs]
                o = ctx.attempt(label, lambda: boot.dask.compute(*[list(r.data) for r in x.signals]))
                ctx.must_succeed(o)
                for g, v in zip(o.value, want):
                    for p, q in zip(g, v):
                        ctx.equal(p, q, label)
            else:
                estimate(op, label)

    def estimate(op, label):
        o = op['opts']
        kw = mt.kwargs_for(o)
        if op['k'] == 'spectrum':
            want = mt.ref_coeffs(s, op['freqs'][0], o['fourier'], arrs=arrs)
            if want is None or want == 'ambiguous':
                return
            got = abroad(op, 'spectrum', mtset, label, args=(op['freqs'][0], kw['fourier_opts']))
            for c, (g, v) in enumerate(zip(got[0], want[0])):
                ctx.close(g, v, f'{label}: coefficients of channel {c}', 1e-9)
            return
        if op['k'] == 'fit':
            g = np.random.Generator(np.random.PCG64(op['v']))
            b = g.normal(size=(2, 60)) + 1j * g.normal(size=(2, 60))
            e = g.normal(size=(1, 2)) @ b + .1 * g.normal(size=(1, 60))
            e[0, 7] += 40
            if op['used']:      # with something left from an earlier fit
                try:
                    rzb.mestimator.transfer_function(list(e[:, :40]), list(b[:, :40]), kw['weights'])
                except (ValueError, rzb.errors.NonConvergence, np.linalg.LinAlgError):
                    pass
            try:
                def one(chans):
                    Z, IV = ref.transfer(chans[:1], chans[1:], mt.ref_weights(o['weights']))
                    return [Z], IV, (Z, IV)
                Z, IV = ref.stable(one, list(e) + list(b), 1e-5)
            except (ref.Fail, ref.Ambiguous, np.linalg.LinAlgError):
                return
            got = abroad(op, 'fit', kw['weights'], label, e=list(e), b=list(b))
            ctx.close(got[0], Z, f'{label}: transfer function', 1e-5)
            for p, q in zip(got[1], IV):
                ctx.equal(p, q, f'{label}: rejected windows')
            return
        want = mt.ref_impedance(s, o, op['freqs'], arrs)
        if 'ambiguous' in want:
            return
        if op['used']:
            ctx.attempt('estimation', lambda: rzb.utils.impedance(mtset, op['freqs'], **kw))
        got = abroad(op, 'imp', (mtset, kw), label, freqs=op['freqs'])
        skip = ()
        if op['disk'] and op['how'] == 'cloudpickle' and np.isnan(got.impedance[0]).all():
            skip = (0,)         # a frequency is allowed to fail on a failing disk
        mt.compare_ref(ctx, got, want, s, o, label, skip=skip)

    for c, ops in enumerate(w['clients']):
        ctx.client(f'client{c}', lambda ops=ops: client(ops))
    ctx.go()


def check_shown(ctx, got, m, label):
    tags, n, runs = got
    if tags != {k: tuple(v) for k, v in m.tags.items()} or n != m.n or len(runs) != len(m.runs):
        ctx.fail('differs', f'{label}: elsewhere tags {tags}, {n} channels, {len(runs)} runs, '
                 f'sent {m.tags}, {m.n}, {len(m.runs)}')
    for k, (g, r) in enumerate(zip(runs, m.runs)):
        rate, start, size, cal, data = g
        eps = 12 * survey.ulp(max(abs(r.start), abs(r.stop)))
        if rate != r.rate or size != r.n or abs(start - float(r.start)) > eps:
            ctx.fail('differs', f'{label}: run {k} elsewhere {g[:3]}, sent '
                     f'{(r.rate, float(r.start), r.n)}')
        if cal != list(r.cals):
            ctx.fail('calibration', f'{label}: run {k} elsewhere has calibrations {cal}, sent {r.cals}')
        for c, (v, q) in enumerate(zip(data, r.cols)):
            ctx.equal(v, q, f'{label}: run {k} channel {c} elsewhere', 'wrong-samples')


# ---------------------------------------------------- what the other process does
def show(x):
    return (dict(x.tags), x.nb_channels,
            [(r.sampling_rate, r.start, r.size, [f(3.5) for f in r.calibrations],
              [np.asarray(v) for v in boot.dask.compute(*r.data)]) for r in x.signals])


def edit(objs, edit, models):
    _, _, real, _ = survey.prepare(edit, list(zip(objs, models)))
    return real()


def tags(t):
    d = copy.copy(t)
    same = d == t
    return dict(t), sorted(t.indices), same


def do_cals(fs, at):
    out = []
    for f in fs:
        for x in at:
            try:
                out.append(complex(f(x)))
            except ValueError:
                out.append('out of range')
    return out


def raw(a, slices):
    out = []
    for sl in slices:
        try:
            out.append(np.asarray(a[world.as_index(sl)]))
        except IndexError:
            out.append('IndexError')
    return out


JOBS = dict(
    show=show, edit=edit, tags=tags, cals=do_cals, raw=raw,
    pack=lambda inv: inv.pack(),
    spectrum=lambda x, args: x.fourier_coefficients(args[0], **args[1]),
    fit=lambda wts, e, b: rzb.mestimator.transfer_function(e, b, wts),
    imp=lambda pair, freqs: rzb.utils.impedance(pair[0], freqs, **pair[1]))


def observe(ctx, obs):
    w = ctx.w
    ctx.disk.root = w['shared']
    os.makedirs(ctx.path('there'))
    os.chdir(ctx.path('there'))

    def client():
        def work():
            obj, k = decode(w['blob'])
            return JOBS[w['job']](obj, **k)
        o = ctx.attempt('job', work)
        obs.append(dict(ok=o.ok, excused=bool(o.excused), value=None,
                        error='' if o.ok else f'{type(o.error).__name__}: {o.error}'))
        if o.ok:
            obs[-1]['value'] = encode(o.value)
    ctx.client('there', client)
    ctx.go()
