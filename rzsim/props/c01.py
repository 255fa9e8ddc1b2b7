""" C01: samples read from a recording file are exact, or the read fails. """
import numpy as np

from .. import boot, ref, world
from ..core import InvalidWorkload

rzb = boot.rzb
ID = 'C01'
SHRINK = ['ops', 'clients', 'clients.*', 'raws', 'files']


def gen(rng, tier):
    nf = rng.randint(1, 4)
    rate = rng.choice(world.RATES_EXACT + world.RATES_ODD)
    start = rng.choice(world.EPOCHS)
    n = rng.choice([1, 2, 5, 33, 64, 100, 257])
    files = [world.gen_ats(rng, n=n, rate=rate, start=start, name=f'c{i}.ats') for i in range(nf)]
    raws = []
    for i in range(rng.choice([0, 0, 1, 2])):
        dt = rng.choice(['<i2', '<i4', '<f8', '<u1', '>i4', '>f8'])
        raws.append(dict(name=f'r{i}.bin', n=rng.choice([1, 3, 50, 200]), dtype=dt,
                         offset=rng.choice([0, 1, 16, 1024]), seed=rng.randrange(1 << 30)))
    clients = []
    for c in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randint(2, 6)):
            k = rng.choice(['load', 'read', 'read', 'read', 'joint', 'extract', 'raw', 'cat', 'header'])
            if k == 'raw' and not raws:
                k = 'read'
            if k == 'load':
                sub = [rng.randrange(nf) for _ in range(rng.randint(1, nf))]
                ops.append(['load', sub])
            elif k == 'read':
                ops.append(['read', rng.randrange(99), rng.randrange(99),
                            world.gen_slice(rng, n, dask=True)])
            elif k == 'header':
                ops.append(['header', rng.randrange(nf)])
            elif k == 'joint':
                ops.append(['joint', rng.randrange(99)])
            elif k == 'extract':
                a, b = sorted([rng.randint(0, n - 1), rng.randint(0, n - 1)])
                ops.append(['extract', rng.randrange(99), a, b])
            elif k == 'cat':
                ops.append(['cat', rng.randrange(99), rng.randrange(1, n + 1)])
            else:
                r = rng.randrange(len(raws))
                ops.append(['raw', r, world.gen_slice(rng, raws[r]['n']), rng.choice([0, 0, 1, 2])])
        clients.append([['load', list(range(nf))]] + ops)
    kinds = ['eio', 'eacces', 'emfile', 'enomem', 'memerr', 'cut', 'vanish']
    if rng.random() < .05:
        return gen_big(rng, kinds)
    return dict(files=files, raws=raws, clients=clients,
                chunk_size=world.chunk_for(rng, n),
                sim=world.sim_opts(rng), disk=world.disk_cfg(rng, kinds))


def gen_big(rng, kinds):
    """ recordings of several GiB (sparse): samples around a few places """
    n = rng.choice([2 ** 29, 2 ** 30, 2 ** 31 - 1]) - rng.choice([0, 1, 100, 12345])
    chunk = rng.choice([4, 16]) << 20
    f = dict(world.gen_ats(rng, n=64, name='big.ats'), n=n)
    places = [0, n - 64] + [min(n - 64, max(0, x)) for x in
                            rng.sample([2 ** 29, 2 ** 30, 2 ** 28, chunk // 4, chunk // 8, n // 2,
                                        2 ** 16, 2 ** 31 // 8 * 3], 3)]
    places = [max(0, p - rng.choice([0, 1, 31, 256 + 32])) for p in places]
    ops = []
    for _ in range(rng.randint(2, 5)):
        a = rng.choice(places) + rng.randrange(-40, 100)
        ops.append([rng.choice(['read', 'raw']), a, a + rng.choice([1, 7, 64, 200]),
                    rng.choice([1, 1, 1, 2, 7])])
    return dict(big=f, places=places, ops=ops, chunk_size=f'{chunk}B', sim=world.sim_opts(rng),
                disk=world.disk_cfg(rng, [k for k in kinds if k != 'cut']))


def big_values(w, idx):
    f = w['big']
    out = np.zeros(len(idx), np.int32)
    for k, p in enumerate(w['places']):
        m = (idx >= p) & (idx < p + 64)
        out[m] = world.rnd_samples(f['seed'] + k, 64)[idx[m] - p]
    return out


def run_big(ctx):
    w = ctx.w
    f = w['big']
    path = world.write_ats(ctx, dict(f, n=1))
    with open(path, 'r+b') as g:
        g.seek(8 - 4)
        g.write(np.int32(f['n']).tobytes())
        g.truncate(f['hl'])
        g.truncate(f['hl'] + 4 * f['n'])
        for k, p in enumerate(w['places']):
            g.seek(f['hl'] + 4 * p)
            g.write(world.rnd_samples(f['seed'] + k, 64).tobytes())

    def client():
        sig = raw = None
        for kind, a, b, step in w['ops']:
            a, b = max(0, a), max(0, min(f['n'], b))
            idx = np.arange(a, max(a, b), step)
            want = big_values(w, idx)
            if kind == 'read':
                if sig is None:
                    o = ctx.attempt('load', lambda: rzb.io.load_ats([path]))
                    if not ctx.must_succeed(o):
                        continue
                    sig = o.value
                    if sig.size != f['n']:
                        ctx.fail('size', f'{sig.size} samples, the file has {f["n"]}')
                o = ctx.attempt(f'read {a}:{b}:{step}', lambda: np.asarray(sig.data[0][a:b:step]))
                if ctx.must_succeed(o):
                    ctx.equal(o.value, f['lsb'] * want, o.label)
            else:
                if raw is None:
                    cls = rzb.io.binary_file_array.BinaryFileArray_1D
                    o = ctx.attempt('proxy', lambda: cls(path, f['hl'], f['n'], np.int32))
                    if not ctx.must_succeed(o):
                        continue
                    raw = o.value
                o = ctx.attempt(f'raw {a}:{b}:{step}', lambda: np.asarray(raw[a:b:step]))
                if ctx.must_succeed(o):
                    ctx.equal(o.value, want, o.label)
            ctx.probe('big recordings')
    ctx.client('client', client)
    ctx.go()
    if ctx.disk.left_open():
        ctx.fail('leak', f'{ctx.disk.left_open()} left open')


def raw_values(spec):
    g = np.random.Generator(np.random.PCG64(spec['seed']))
    dt = np.dtype(spec['dtype'])
    if dt.kind == 'f':
        return g.normal(size=spec['n']).astype(dt)
    info = np.iinfo(dt)
    return g.integers(info.min, info.max, spec['n'], endpoint=True, dtype=dt.newbyteorder('=')).astype(dt)


def check_load(ctx, o, specs):
    """ expected values of a loaded signal; handles recordings cut while loading """
    sig = o.value
    n = specs[0]['n']
    if len(sig.data) != len(specs):
        ctx.fail('channels', f'{o.label}: {len(sig.data)} channels from {len(specs)} files')
    size = sig.size
    if size != n:
        if size > n:
            ctx.fail('size', f'{o.label}: {size} samples from a recording of {n}')
        cut = ctx.disk.window_between(o.s0, o.s1)
        if not cut:
            ctx.fail('size', f'{o.label}: {size} samples, the file has {n}')
        if not o.warnings:
            ctx.fail('silent-truncation', f'{o.label}: {size} of {n} samples without a warning')
    if sig.sampling_rate != float(np.float32(specs[0]['rate'])):
        ctx.fail('header', f'{o.label}: sampling rate {sig.sampling_rate}')
    if sig.start != float(specs[0]['start']):
        ctx.fail('header', f'{o.label}: start {sig.start}')
    return [world.ats_values(s)[:size] for s in specs]


def check_header(ctx, got, s):
    want = ref.ats_fields(s['seed']) if s['seed'] % 3 else {n: None for n, _, _ in ref.ATS_FIELDS}
    want.update(header_length=s['hl'], sample_length=s['n'], start=s['start'], lsbval=s['lsb'],
                sampling_rate=float(np.float32(s['rate'])))
    for name, v in want.items():
        if name not in got:
            ctx.fail('header', f'no {name} in the header')
        x = got[name]
        if v is None:
            if x not in (0, b'\0' * len(x if isinstance(x, bytes) else b'')):
                ctx.fail('header', f'{name} is {x!r}, the file has zeros')
            continue
        unit = {'ADU_Lat': 1 / 3.6e6, 'ADU_Long': 1 / 3.6e6, 'ADU_Elev': .01}.get(name)
        if x != v if unit is None else abs(x - v * unit) > 1e-12 * abs(v * unit):
            ctx.fail('header', f'{name} is {x!r}, the file has {v!r}')
    ctx.probe('headers compared')


def run(ctx):
    w = ctx.w
    if 'big' in w:
        return run_big(ctx)
    if not w['files']:
        raise InvalidWorkload
    paths = [world.write_ats(ctx, s) for s in w['files']]
    rpaths = []
    for s in w['raws']:
        rpaths.append(ctx.write(s['name'], b'\x55' * s['offset'] + raw_values(s).tobytes()))
    loaded = []         # (signal, expected arrays)

    def client(ops):
        mine = []

        def pick(k):
            return mine[k % len(mine)]

        for op in ops:
            k = op[0]
            if k == 'load':
                if any(i >= len(w['files']) for i in op[1]) or not op[1]:
                    raise InvalidWorkload
                specs = [w['files'][i] for i in op[1]]
                o = ctx.attempt(f'load {op[1]}', lambda: rzb.io.load_ats([paths[i] for i in op[1]]))
                if ctx.must_succeed(o):
                    item = (o.value, check_load(ctx, o, specs))
                    mine.append(item)
                    loaded.append(item)
            elif k == 'header':
                if op[1] >= len(paths):
                    raise InvalidWorkload
                o = ctx.attempt(f'header {op[1]}', lambda: rzb.io.ats.read_ats_header(paths[op[1]]))
                if ctx.must_succeed(o):
                    check_header(ctx, o.value, w['files'][op[1]])
            elif k == 'raw':
                if op[1] >= len(w['raws']):
                    raise InvalidWorkload
                s = w['raws'][op[1]]
                idx = world.as_index(op[2])

                def read_raw():
                    cls = rzb.io.binary_file_array.BinaryFileArray_1D
                    a = cls(rpaths[op[1]], s['offset'], s['n'], s['dtype'])
                    return ((np.asarray(a)[idx], a.shape) if op[3] == 1 else (np.asarray(a, np.float64)[idx], a.shape)
                            if op[3] == 2 else (np.asarray(a[idx]), a.shape))
                o = ctx.attempt(f'raw {op[1:]}', read_raw)
                if isinstance(idx, int) and not -s['n'] <= idx < s['n']:
                    raise InvalidWorkload
                if ctx.must_succeed(o):
                    got, shape = o.value
                    want = raw_values(s)
                    if shape != (s['n'],):
                        if not (o.warnings and ctx.disk.window_between(o.s0, o.s1)):
                            ctx.fail('silent-truncation', f'{o.label}: shape {shape}')
                        continue
                    ctx.equal(got, want[idx], o.label)
            elif not mine:
                continue
            elif k == 'read':
                sig, exp = pick(op[1])
                c = op[2] % len(exp)
                idx = world.as_index(op[3])
                if isinstance(idx, int) and not -len(exp[c]) <= idx < len(exp[c]):
                    continue
                o = ctx.attempt(f'read c{c}[{op[3]}]', lambda: np.asarray(sig.data[c][idx]))
                if ctx.must_succeed(o):
                    ctx.equal(o.value, exp[c][idx], o.label)
            elif k == 'joint':
                sig, exp = pick(op[1])
                o = ctx.attempt('joint read', lambda: boot.dask.compute(*sig.data))
                if ctx.must_succeed(o):
                    for c, e in enumerate(exp):
                        ctx.equal(o.value[c], e, f'joint read c{c}')
            elif k == 'extract':
                sig, exp = pick(op[1])
                a, b = op[2], op[3]
                if b >= sig.size:
                    continue
                o = ctx.attempt(f'extract {a}:{b}', lambda: [
                    np.asarray(d) for d in sig.extract_i(a, b, include_last=True).data])
                if ctx.must_succeed(o):
                    for c, e in enumerate(exp):
                        ctx.equal(o.value[c], e[a:b + 1], f'{o.label} c{c}')
            elif k == 'cat':
                sig, exp = pick(op[1])
                cut = min(op[2], sig.size)
                o = ctx.attempt(f'cat at {cut}', lambda: [
                    np.asarray(np.concatenate([d[cut:], d[:cut]])) for d in sig.data])
                if ctx.must_succeed(o):
                    for c, e in enumerate(exp):
                        ctx.equal(o.value[c], np.concatenate([e[cut:], e[:cut]]), f'{o.label} c{c}')

    for i, ops in enumerate(w['clients']):
        ctx.client(f'client{i}', lambda ops=ops: client(ops))
    ctx.go()
    # the faults stop: everything loaded so far must read back exactly
    ctx.disk.heal_all()
    ctx.disk.armed = False

    def final():
        for sig, exp in loaded:
            o = ctx.attempt('read after the faults stopped', lambda: [np.asarray(d) for d in sig.data])
            ctx.must_succeed(o, 'no-recovery')
            if o.ok:
                for c, e in enumerate(exp):
                    ctx.equal(o.value[c], e, f'{o.label} c{c}', 'no-recovery')
        o = ctx.attempt('load after the faults stopped', lambda: rzb.io.load_ats(paths))
        ctx.must_succeed(o, 'no-recovery')
        exp = check_load(ctx, o, w['files'])
        o = ctx.attempt('read', lambda: boot.dask.compute(*o.value.data))
        ctx.must_succeed(o, 'no-recovery')
        for c, e in enumerate(exp):
            ctx.equal(o.value[c], e, f'fresh read c{c}', 'no-recovery')
        if ctx.disk.left_open():
            ctx.fail('leak', f'{ctx.disk.left_open()} left open')
    ctx.client('final', final)
    ctx.go()
