""" C02: torn and growing recordings. """
import os

import numpy as np

from .. import boot, ref, world
from ..core import InvalidWorkload

rzb = boot.rzb
ID = 'C02'
SHRINK = ['env', 'readers', 'readers.*', 'chans']


def gen(rng, tier):
    nc = rng.choice([1, 1, 2, 3])
    n = rng.choice([1, 2, 5, 20, 64])
    rate, start = rng.choice(world.RATES_EXACT + world.RATES_ODD), rng.choice(world.EPOCHS)
    chans = []
    for i in range(nc):
        s = world.gen_ats(rng, n=n, rate=rate, start=start, name=f'c{i}.ats')
        s['hl'] = 1024
        chans.append(s)
    odd = rng.random()
    if nc > 1 and odd < 0.12:
        chans[-1]['rate'] = rng.choice([rate * 2, float(np.nextafter(np.float32(rate), np.float32(
            rng.choice([0, 1e9]))))])
    elif nc > 1 and odd < 0.24:
        if rng.random() < 0.5:      # less than one sampling period apart
            for s in chans:
                s['rate'] = rng.choice([0.125, 0.5, 1 / 30]) if s is chans[0] else chans[0]['rate']
        chans[-1]['start'] = start + rng.choice([1, 1, 2, 3600])
    declared = rng.choice([n, n, n, n + 1, n + 1000, 2 ** 31 - 1, max(1, n // 2), 0])
    mode = rng.random()
    total = 1024 + 4 * n
    if mode < 0.45:      # crashed recorder: nothing moves any more
        same = rng.random() < 0.4
        cut = [rng.choice([rng.randrange(0, total + 1), 1024 + rng.randrange(0, 4 * n + 1)])
               for _ in chans]
        sizes = [cut[0]] * nc if same else cut
        env = []
    else:
        sizes = [rng.choice([0, 2, 1000, 1024, 1024 + 4 * rng.randrange(0, n + 1),
                             1024 + rng.randrange(0, 4 * n + 1), total]) for _ in chans]
        if rng.random() < 0.6:
            sizes = [sizes[0]] * nc
        env = []
        for _ in range(rng.randint(1, 10)):
            c = rng.randrange(nc)
            k = rng.random()
            if k < 0.6:
                env.append(['append', c, rng.choice([1, 2, 3, 4, 4, 8, 40, 1 << 20])])
            elif k < 0.75:
                env.append(['appendall', rng.choice([4, 8, 3, 1 << 20])])
            elif k < 0.9:
                env.append(['truncate', c, rng.randrange(0, total + 1)])
            else:
                env.append(['header', c, rng.choice([n, n // 2 + 1, n + 7])])
    readers = []
    for _ in range(rng.choice([1, 1, 2])):
        ops = []
        for _ in range(rng.randint(1, 4)):
            ops.append(rng.choice([['load', sorted(rng.sample(range(nc), rng.randint(1, nc)))],
                                   ['read', rng.randrange(9)], ['read', rng.randrange(9)],
                                   ['slice', rng.randrange(9), world.gen_slice(rng, n, True)]]))
        readers.append([['load', list(range(nc))]] + ops)
    return dict(chans=chans, declared=declared, sizes=sizes, env=env, readers=readers,
                chunk_size=world.chunk_for(rng, n), sim=world.sim_opts(rng),
                disk=world.disk_cfg(rng, ['eio', 'emfile', 'enomem', 'memerr'], p_none=0.7,
                                    permute=0))


def run(ctx):
    w = ctx.w
    chans = w['chans']
    nc = len(chans)
    if nc == 0 or len(w['sizes']) < nc:
        raise InvalidWorkload
    full, hist = [], []
    for c, s in enumerate(chans):
        data = ref.ats_bytes(world.ats_raw(s), s['rate'], s['start'], s['lsb'], 1024,
                             declared=w['declared'])
        size = min(w['sizes'][c], len(data))
        ctx.write(s['name'], data[:size])
        full.append(bytearray(data))
        ctx.simulated_seconds += s['n'] / s['rate']
        # state: (step, bytes on disk, declared)
        hist.append([(0, size, w['declared'])])
    paths = [ctx.path(s['name']) for s in chans]
    raws = [world.ats_raw(s) for s in chans]
    vals = [world.ats_values(s) for s in chans]
    items = []

    def states(c, s0, s1):
        h = hist[c]
        out = [e for e in h if s0 <= e[0] <= s1]
        before = [e for e in h if e[0] < s0]
        return (before[-1:] + out)

    def complete(nbytes):
        return max(0, nbytes - 1024) // 4

    real = boot.disk.REAL

    def recorder():
        sim = ctx.sim
        for a in w['env']:
            sim.pause('recorder')
            k = a[0]
            targets = range(nc) if k == 'appendall' else [a[1]]
            for c in targets:
                if c >= nc:
                    raise InvalidWorkload
                _, size, dec = hist[c][-1]
                if k in ('append', 'appendall'):
                    new = min(len(full[c]), size + a[-1])
                    with real['open'](paths[c], 'r+b') as f:
                        f.seek(size)
                        f.write(full[c][size:new])
                elif k == 'truncate':
                    new = min(a[2], len(full[c]), size)
                    real['truncate'](paths[c], new)
                else:
                    new, dec = size, a[2]
                    head = np.int32(dec).tobytes()
                    full[c][4:8] = head
                    with real['open'](paths[c], 'r+b') as f:
                        f.seek(4)
                        f.write(head[:max(0, size - 4)])
                if (new, dec) != hist[c][-1][1:]:
                    hist[c].append((sim.step, new, dec))
                    sim.event('recorder', k, c, new)
                    sim.probe('recorder_steps')

    def reader(ops):
        for op in ops:
            if op[0] == 'load':
                sub = op[1]
                if not sub or any(c >= nc for c in sub):
                    raise InvalidWorkload
                o = ctx.attempt(f'load {sub}', lambda: rzb.io.load_ats([paths[c] for c in sub]))
                st = [states(c, o.s0, o.s1) for c in sub]
                stable = all(len(x) == 1 for x in st)
                ctx.sim.probe('torn_loads', int(any(
                    x[0][1] < 1024 + 4 * x[0][2] for x in st)))
                mism = (len({chans[c]['rate'] for c in sub}) > 1
                        or len({chans[c]['start'] for c in sub}) > 1)
                if o.ok:
                    sig = o.value
                    if mism:
                        ctx.fail('mixed', f'{o.label} succeeded on channels of different rate or start')
                    if len(sig.data) != len(sub):
                        ctx.fail('channels', f'{o.label}: {len(sig.data)} channels')
                    size = sig.size
                    for c, x, d in zip(sub, st, sig.data):
                        if len(d) != size:
                            ctx.fail('size', f'{o.label}: channels of different lengths')
                        ok_sizes = {min(e2[2], complete(e1[1])) for e1 in x for e2 in x
                                    if e2[1] >= 8}
                        if size not in ok_sizes or size == 0:
                            ctx.fail('size', f'{o.label}: channel {c} has {size} samples, possible '
                                     f'were {sorted(ok_sizes)} (bytes on disk, declared: '
                                     f'{[e[1:] for e in x]})')
                    short = [c for c, x in zip(sub, st)
                             if all(size < e[2] for e in x)]
                    if len(o.warnings) < len(short):
                        ctx.fail('silent-truncation', f'{o.label}: {size} samples of channels '
                                 f'{short} are fewer than declared, {len(o.warnings)} warnings')
                    s0 = chans[sub[0]]
                    if (sig.sampling_rate != float(np.float32(s0['rate']))
                            or sig.start != float(s0['start'])):
                        ctx.fail('header', f'{o.label}: rate {sig.sampling_rate} start {sig.start}')
                    items.append((sig, sub, size))
                elif stable and not mism:
                    sizes = {min(x[0][2], complete(x[0][1])) for x in st}
                    torn = any(x[0][1] < 1024 for x in st)
                    if len(sizes) == 1 and sizes.pop() > 0 and not torn:
                        ctx.must_succeed(o)
            else:
                if not items:
                    continue
                sig, sub, size = items[op[1] % len(items)]
                idx = world.as_index(op[2]) if op[0] == 'slice' else slice(None)
                if isinstance(idx, int) and not -size <= idx < size:
                    continue
                o = ctx.attempt(f'{op[0]} {sub} {idx}',
                                lambda: boot.dask.compute(*[d[idx] for d in sig.data]))
                st = [states(c, o.s0, o.s1) for c in sub]
                if o.ok:
                    if sig.size != size:
                        ctx.fail('size', f'{o.label}: the size changed from {size} to {sig.size}')
                    for c, v in zip(sub, o.value):
                        ctx.equal(v, vals[c][:size][idx], f'{o.label} channel {c}')
                    if op[0] == 'read':
                        for c, x in zip(sub, st):
                            if all(complete(e[1]) < size for e in x):
                                ctx.fail('phantom', f'{o.label}: {size} samples from a file that '
                                         f'holds {[complete(e[1]) for e in x]}')
                elif all(complete(e[1]) >= size for x in st for e in x):
                    ctx.must_succeed(o)

    if w['env']:
        ctx.client('recorder', recorder)
    for i, ops in enumerate(w['readers']):
        ctx.client(f'reader{i}', lambda ops=ops: reader(ops))
    if not w['env']:
        ctx.sim.probe('nontrivial')
    ctx.go()
