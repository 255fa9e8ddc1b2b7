""" C20: a damaged part of a recording spoils only what needs it. """
import numpy as np

from .. import boot, disk, ref, world
from ..core import InvalidWorkload

rzb = boot.rzb
ID = 'C20'
SHRINK = ['clients', 'clients.*', 'env']
LSB = 0.5
HL = 1024
ITEM = 4
KINDS = ['cut', 'cut', 'cut', 'chan', 'run', 'read', 'read', 'read', 'read', 'joint', 'joint',
         'fourier', 'raw', 'raw', 'load', 'glue', 'again']


def gen(rng, tier):
    nr, nc = rng.choice([1, 1, 2]), rng.choice([1, 2, 3])
    chunk = rng.choice([16, 16, 32, 64]) << 10
    rate = rng.choice([64., 512., 4096.])
    runs, t = [], 1_300_000_000 * rng.randrange(2)
    for _ in range(nr):
        n = rng.choice([150_000, 300_000, 500_000]) + rng.randrange(3)
        runs.append([t, n])
        t += int(n / rate) + rng.choice([1, 1, 100])
    clients = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randint(3, 9)):
            a = rng.random()
            ops.append(dict(k=rng.choice(KINDS), i=rng.randrange(99), r=rng.randrange(nr),
                            c=rng.randrange(nc), a=a, n=rng.choice([1, 7, 300, 5000, 20000, 60000]),
                            step=rng.choice([1, 1, 1, 2, 7, 5000]), Lw=rng.choice([64, 200]),
                            sel=rng.randrange(1, 2 ** nc)))
        clients.append(ops)
    env = []
    places = [o['a'] for ops in clients for o in ops]
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
        env.append(dict(wait=rng.choice([0, 0, 0, 10, 60, 250]),
                        k=rng.choice(['bad', 'bad', 'bad', 'bad', 'cut', 'heal']),
                        r=rng.randrange(nr), c=rng.randrange(nc),
                        # anywhere, or among what is going to be read
                        at=rng.random() if rng.random() < .6 else
                        min(.9999, rng.choice(places) + rng.choice([0, 0, .01])),
                        n=rng.choice([1, 512, 4096, 65536])))
    kinds = ['eio', 'emfile', 'enomem', 'memerr']
    return dict(runs=runs, nc=nc, rate=rate, seed=rng.randrange(1 << 30), clients=clients, env=env,
                chunk=chunk, chunk_size=f'{chunk}B', sim=world.sim_opts(rng),
                disk=world.disk_cfg(rng, kinds, p_none=.7, max_faults=2))


class M:
    """ what an object holds: channels and [run, first sample, end] """

    def __init__(self, chans, parts):
        self.chans, self.parts = chans, parts


def run(ctx):
    w = ctx.w
    ctx.sim.o.opcodes = False
    rate, nc, margin = w['rate'], w['nc'], 2 * w['chunk'] + (64 << 10)
    if not w['runs']:
        raise InvalidWorkload
    vals, paths, t0 = {}, {}, {}
    for r, (t, n) in enumerate(w['runs']):
        for c in range(nc):
            vals[r, c] = world.rnd_samples(w['seed'] + 7 * r + c, n)
            paths[r, c] = ctx.write(f'r{r}/c{c}.ats', ref.ats_bytes(vals[r, c], rate, t, LSB, HL))
        t0[r] = float(t)
        ctx.simulated_seconds += n / rate
    tags = {f'C{c}': c for c in range(nc)}

    def load(r):
        return rzb.io.load_ats([paths[r, c] for c in range(nc)])
    base = (rzb.SignalSet(tags, *[load(r) for r in range(len(w['runs']))]),
            M(list(range(nc)), [(r, 0, n) for r, (_, n) in enumerate(w['runs'])]))
    d, sim = ctx.disk, ctx.sim
    d.spans = []
    damage = []         # [first step, last step or None, relpath, lo, hi]
    names = {k: d.rel(p) for k, p in paths.items()}

    def attempt(label, fn, need, header=()):
        """ need: [(run, channel, first sample, end)] """
        me = sim.current.owner
        areas = [(names[r, c], HL + ITEM * a - margin, HL + ITEM * b + margin)
                 for r, c, a, b in need if b > a]
        areas += [(names[k], 0, margin) for k in header]
        n0 = len(d.spans)
        hits = sum(1 for f in d.fired if f[1] == me and f[2] != 'badsector')
        o = ctx.attempt(label, fn)
        for owner, rel, lo, hi in d.spans[n0:]:
            if owner == me and not any(rel == q and x <= lo and hi <= y for q, x, y in areas):
                ctx.fail('reads-elsewhere', f'{label}: reads bytes {lo} to {hi} of {rel}, it only '
                         f'needs {[(q, max(0, x), y) for q, x, y in areas][:4]} (with a margin)')
        near = [x for x in damage if x[0] <= o.s1 and (x[1] is None or x[1] >= o.s0)
                and any(x[2] == q and (x[3] < hi and x[4] > lo or lo == 0 and x[4] == float('inf'))
                        for q, lo, hi in areas)]    # (the size of a file is part of its header)
        if damage:
            ctx.probe('near damage' if near else 'apart from damage')
        if not o.ok and not near:
            if sum(1 for f in d.fired if f[1] == me and f[2] != 'badsector') == hits:
                import traceback
                tb = ''.join(traceback.format_exception(o.error)[-3:])
                ctx.fail('spoiled', f'{o.describe()} although the damage lies elsewhere: '
                         f'{[x[2:] for x in damage][:4]}\n{tb}')
        o.near = near
        return o

    def client(ops):
        pool = [base]
        last = None
        for k, op in enumerate(ops):
            x, m = pool[op['i'] % len(pool)]
            kind = op['k']
            label = f'operation {k} ({kind})'
            if kind == 'again':         # what failed before, or worked
                if last:
                    read(*last)
                continue
            if not m.parts and kind not in ('raw', 'load'):
                continue
            if kind == 'cut':
                r, a, b = m.parts[op['r'] % len(m.parts)]
                i = a + int(op['a'] * (b - a))
                j = min(b - 1, i + op['n'])
                if j - i < 2:
                    continue
                t = [t0[r] + v / rate for v in (i, j)]
                o = attempt(label, lambda: x.extract_t(*t), [])
                if o.ok:
                    pool.append((o.value, M(m.chans, [(r, i, j + 1)])))
            elif kind == 'chan':
                sel = [c for q, c in enumerate(m.chans) if op['sel'] >> q & 1]
                if not sel:
                    continue
                o = attempt(label, lambda: x.select_channels([f'C{c}' for c in sel]), [])
                if o.ok:
                    pool.append((o.value, M(sel, m.parts)))
            elif kind == 'run':
                r = op['r'] % len(m.parts)
                o = attempt(label, lambda: x.select_runs(r), [])
                if o.ok:
                    pool.append((o.value, M(m.chans, [m.parts[r]])))
            elif kind == 'glue':        # two pieces of one run, seen as one again
                r, a, b = m.parts[op['r'] % len(m.parts)]
                i = a + int(op['a'] * (b - a))
                if not 2 <= i - a or not 2 <= b - i:
                    continue
                t = [t0[r] + v / rate for v in (a, i - 1, i, b - 1)]

                def glue():
                    y = x.extract_t(t[0], t[1]) | x.extract_t(t[2], t[3])
                    return y.merge_consecutive_runs()
                o = attempt(label, glue, [])
                if o.ok:
                    pool.append((o.value, M(m.chans, [(r, a, b)])))
            elif kind == 'load':
                r = op['r'] % len(w['runs'])
                o = attempt(label, lambda: load(r), [], [(r, c) for c in range(nc)])
                if o.ok and not any(q[2].startswith(f'r{r}/') for q in damage):
                    if o.value.size != w['runs'][r][1] or o.value.start != t0[r]:
                        ctx.fail('wrong-data', f'{label}: {o.value!r}')
            elif kind == 'raw':
                key = op['r'] % len(w['runs']), op['c'] % nc
                n = w['runs'][key[0]][1]
                i = int(op['a'] * n)
                j = min(n, i + op['n'])
                if any(q[2] == names[key] and q[4] == float('inf') for q in damage):
                    continue            # created with the size it has now
                o = attempt(label, lambda: rzb.io.binary_file_array.BinaryFileArray_1D(
                    paths[key], HL, n, np.int32), [], [key])
                if not o.ok or o.value.shape != (n,):
                    continue
                raw = o.value
                o = attempt(f'{label} [{i}:{j}:{op["step"]}]',
                            lambda: np.asarray(raw[i:j:op['step']]), [key + (i, j)])
                if o.ok:
                    ctx.equal(o.value, vals[key][i:j:op['step']], label)
            elif kind == 'fourier':
                total = sum(b - a for _, a, b in m.parts)
                Lw = op['Lw']
                if total > 25000 or any(b - a < 4 * Lw for _, a, b in m.parts):
                    continue
                f = 3 * rate / (Lw - .4)
                o = attempt(label, lambda: x.fourier_coefficients(f, 3, .5, None),
                            [(r, c, a, b) for r, a, b in m.parts for c in m.chans])
                if o.ok:
                    for q, c in enumerate(m.chans):
                        got = [ref.fourier([LSB * vals[r, c][a:b]], rate, f, 3, .5, None)
                               for r, a, b in m.parts]
                        if any(g is None or g == 'ambiguous' for g in got):
                            break
                        ctx.close(o.value[0][q], np.concatenate([g[0][0] for g in got]),
                                  f'{label}: channel {c}')
                        ctx.probe('spectra')
            else:
                last = (x, m, op, label)
                read(*last)

    def read(x, m, op, label):
        q = op['r'] % len(m.parts)
        r, a, b = m.parts[q]
        p = op['c'] % len(m.chans)
        i = int(op['a'] * (b - a))
        j = min(b - a, i + op['n'])
        sl = slice(i, j, op['step'])
        which = range(len(m.chans)) if op['k'] == 'joint' else [p]
        data = [x.signals[q].data[s] for s in which]
        o = attempt(f'{label} of {op["n"]} samples at {i}',
                    lambda: boot.dask.compute(*[y[sl] for y in data]),
                    [(r, m.chans[s], a + i, a + j) for s in which])
        if o.ok:
            for s, g in zip(which, o.value):
                ctx.equal(g, LSB * vals[r, m.chans[s]][a:b][sl], o.label)
            if o.near:
                ctx.probe('right although damaged nearby')
        else:
            ctx.probe('failed on damage')

    def environment():
        backup = {}
        for e in w['env']:
            for _ in range(e['wait']):
                sim.pause('environment')
            key = e['r'] % len(w['runs']), e['c'] % nc
            rel, path = names[key], paths[key]
            n = w['runs'][key[0]][1]
            lo = (HL + int(e['at'] * n) * ITEM) // 512 * 512
            lo = max(lo, HL)
            sim.event('environment', e['k'], rel, lo)
            if e['k'] == 'bad':
                d.bad.setdefault(rel, []).append((lo, lo + max(512, e['n'] * ITEM)))
                damage.append([sim.step, None, rel, lo, lo + max(512, e['n'] * ITEM)])
                d.fired_kinds['bad sector'] = d.fired_kinds.get('bad sector', 0) + 1
            elif e['k'] == 'cut' and key not in backup:
                with disk.REAL['open'](path, 'rb') as f:
                    f.seek(lo)
                    backup[key] = lo, f.read()
                disk.REAL['truncate'](path, lo)
                damage.append([sim.step, None, rel, lo, float('inf')])
                d.fired_kinds['lost tail'] = d.fired_kinds.get('lost tail', 0) + 1
            elif e['k'] == 'heal':
                heal(backup)
        sim.pause('environment')
        heal_later.append(backup)

    def heal(backup):
        for key, (lo, data) in backup.items():
            with disk.REAL['open'](paths[key], 'r+b') as f:
                f.seek(lo)
                f.write(data)
        backup.clear()
        d.bad.clear()
        for x in damage:
            if x[1] is None:
                x[1] = sim.step
    heal_later = []
    if w['env']:
        sim.spawn(environment, 'environment')
    for c, ops in enumerate(w['clients']):
        ctx.client(f'client{c}', lambda ops=ops: client(ops))
    ctx.go()
    # the damage is repaired: everything is there as before
    for b in heal_later:
        heal(b)
    d.spans = None
    if d.left_open():
        ctx.fail('leak', f'{d.left_open()} left open')
    x, m = base
    r = w['seed'] % len(m.parts)
    for s, g in enumerate(boot.dask.compute(*x.signals[r].data)):
        ctx.equal(g, LSB * vals[r, s], f'run {r} channel {s} after the repair')
