""" C04: spectra depend on the samples only. """
import numpy as np

from .. import boot, ref, world
from ..core import InvalidWorkload

rzb = boot.rzb
da = boot.dask.array
ID = 'C04'
SHRINK = ['clients', 'clients.*', 'runs', 'chans']


def gen(rng, tier):
    nc = rng.choice([1, 2, 3])
    nr = rng.choice([1, 1, 2, 3])
    rates = [1., 8., 64., 512., 15., 150., 2400., 50.]
    rate = rng.choice(rates)
    runs, t = [], rng.choice([0, 1000, 1_600_000_000])
    long = rng.random() < .08       # windows of thousands of samples
    for i in range(nr):
        if rng.random() < 0.3:
            rate = rng.choice(rates)
        size = rng.choice([40, 64, 100, 128, 300, 511, 512]) if not long else rng.choice([2500, 4000])
        runs.append(dict(size=size, rate=rate, start=t, seeds=[rng.randrange(1 << 30) for _ in range(nc)]))
        if size % rate == 0 and rng.random() < .5:      # recording goes on without a gap
            t += int(size / rate)
        else:
            t += int(size / rate) + rng.choice([2, 100])
    chans = []
    for c in range(nc):
        chans.append(dict(store=rng.choice(['file', 'file', 'numpy', 'dask', 'int', 'list']),
                          cal=rng.choice([None, 2.0, ['c', 0.5, -1.5], ['f', 3.0], ['f', 0.25]])))
    if rng.random() < .5:
        for c in chans:
            c['store'] = 'file'
    if rng.random() < .3:
        for c in chans:
            c['cal'] = None
    cuts = rng.sample(range(1, 40), rng.choice([0, 1, 2, 5]))
    clients = []
    for _ in range(rng.choice([1, 1, 2])):
        ops = []
        for _ in range(rng.randint(1, 3)):
            r = rng.choice(runs)
            nper = rng.choice([1, 2, 3, 4, 8, 2.5])
            Lw = rng.choice([2, 5, 8, 16, 33, 60, 200, 600] if not long else [999, 1000, 1001, 1500, 2047])
            if rng.random() < 0.5:
                freq = nper * r['rate'] / Lw          # may be ambiguous: filtered by the model
            else:
                freq = float('%.5g' % (nper * r['rate'] / (Lw - 0.5)))
            if ops and rng.random() < .4:       # the same windows again
                nper, freq = ops[-1]['Nper'], ops[-1]['freq']
            ops.append(dict(target=rng.choice(['all', 'all', 'run', 'chan']), k=rng.randrange(9),
                            freq=freq, Nper=nper,
                            overlap=rng.choice([0, 0.25, 0.5, 0.71, 0.9, 0.33]),
                            window=rng.choice([None, None, ['slepian', 4], ['slepian', 1.5], ['slepian', 3],
                                               ['hann'], ['array', 'hann'], ['array', 'slepian', 2]]),
                            lazy=rng.random() < 0.2))
        clients.append(ops)
    return dict(runs=runs, chans=chans, cuts=cuts, clients=clients,
                chunk_size=world.chunk_for(rng, 300),
                sim=world.sim_opts(rng),
                disk=world.disk_cfg(rng, ['eio', 'emfile', 'enomem', 'memerr', 'cut', 'vanish'],
                                    p_none=0.5))


def calib(spec):
    if spec is None:
        return 1.0, (lambda f: 1.0)
    if isinstance(spec, (int, float)):
        return spec, (lambda f: spec)
    if spec[0] == 'c':
        v = complex(spec[1], spec[2])
        return v, (lambda f: v)
    k = spec[1]

    def cal(f):
        return k * f / (1 + 1j * f)
    return cal, cal


def samples(ctx, w, r, c):
    """ (object given to SyncSignal, reference float samples) """
    n = w['runs'][r]['size']
    raw = world.rnd_samples(w['runs'][r]['seeds'][c], n, 20)
    st = w['chans'][c]['store']
    if st == 'numpy':
        v = raw * 0.5
        return v, v.copy()
    if st == 'int':
        return raw, raw.astype(float)
    if st == 'list':
        return [int(x) for x in raw], raw.astype(float)
    if st == 'dask':
        cuts = [k for k in sorted(w['cuts']) if k < n]
        sizes = np.diff([0] + cuts + [n]).tolist()
        return da.from_array(raw * 0.25, chunks=(tuple(sizes),)), raw * 0.25
    spec = dict(name=f'r{r}c{c}.ats', n=n, seed=w['runs'][r]['seeds'][c],
                rate=w['runs'][r]['rate'], start=w['runs'][r]['start'], lsb=0.125, hl=1024, bits=20)
    p = world.write_ats(ctx, spec)
    return p, raw * 0.125


def run(ctx):
    w = ctx.w
    nc, nr = len(w['chans']), len(w['runs'])
    if not nc or not nr or any(len(r['seeds']) < nc for r in w['runs']):
        raise InvalidWorkload
    for a, b in zip(w['runs'], w['runs'][1:]):
        if a['start'] + a['size'] / a['rate'] > b['start']:
            raise InvalidWorkload
    vals = []
    sigs = []
    cals = [calib(c['cal']) for c in w['chans']]
    for r in range(nr):
        src, v = zip(*[samples(ctx, w, r, c) for c in range(nc)])
        vals.append(v)
        data = [rzb.io.load_ats([s]).data[0] if isinstance(s, str) else s for s in src]
        cc = None if all(c['cal'] is None for c in w['chans']) else [c[0] for c in cals]
        sigs.append(rzb.SyncSignal(data, w['runs'][r]['rate'], w['runs'][r]['start'], cc))
        ctx.simulated_seconds += w['runs'][r]['size'] / w['runs'][r]['rate']
    tags = {f't{c}': c for c in range(nc)}
    order = list(reversed(sigs)) if w['runs'][0]['seeds'][0] % 2 else sigs
    sset = rzb.SignalSet(tags, *order)

    def expected(op, rr, cc):
        out, info = [], []
        for r in rr:
            ws = op['window']
            if ws and ws[0] == 'array':
                ws = ws[1:]
            got = ref.fourier([vals[r][c] for c in cc], w['runs'][r]['rate'], op['freq'],
                              op['Nper'], op['overlap'], ws, [cals[c][1] for c in cc])
            if got == 'ambiguous':
                return got, None
            if got is None:
                return None, None
            out.append(got[0])
            info.append(got[1])
        return [np.concatenate([o[i] for o in out]) for i in range(len(cc))], info

    def window(op, rr):
        ws = op['window']
        if ws is None:
            return None
        if ws[0] == 'slepian':
            return rzb.fourier_transform.slepian_window(ws[1])
        if ws[0] == 'hann':
            return lambda N: ref.make_window(['hann'], N)
        p = [ref.window_params(w['runs'][r]['size'], w['runs'][r]['rate'], op['freq'], op['Nper'],
                               op['overlap']) for r in rr]
        if None in p:
            return None
        return ref.make_window(ws[1:], p[0][0])

    def client(ops, final=False):
        for op in ops:
            tgt = op['target']
            rr, cc = list(range(nr)), list(range(nc))
            with ctx.quiet():
                if tgt == 'run':
                    rr = [op['k'] % nr]
                    obj = sset.signals[rr[0]]
                elif tgt == 'chan':
                    cc = [op['k'] % nc]
                    obj = sset.select_channels(f't{cc[0]}')
                else:
                    obj = sset
            want, info = expected(op, rr, cc)
            if isinstance(want, str):
                continue
            lengths = {ref.window_params(w['runs'][r]['size'], w['runs'][r]['rate'], op['freq'],
                                         op['Nper'], op['overlap']) for r in rr}
            if op['window'] and op['window'][0] == 'array' and len({p and p[0] for p in lengths}) > 1:
                continue
            win = window(op, rr)

            def call():
                if op['lazy'] and tgt == 'run':
                    c, i = obj.fourier_coefficients(op['freq'], op['Nper'], op['overlap'], win,
                                                    compute=False)
                    return boot.dask.compute(*c), i
                return obj.fourier_coefficients(op['freq'], op['Nper'], op['overlap'], win)
            label = f'spectrum of {tgt} {op["k"]} at {op["freq"]:g}'
            o = ctx.attempt(label, call)
            if want is None:
                # undefined: too short, or above the Nyquist frequency
                if o.ok:
                    clear = any(
                        op['freq'] / w['runs'][r]['rate'] > .5
                        or ref.window_params(w['runs'][r]['size'], w['runs'][r]['rate'], op['freq'],
                                             op['Nper'], op['overlap'])[0] > w['runs'][r]['size']
                        for r in rr)
                    if clear:
                        ctx.fail('undefined', f'{label} gives {o.value[1]}, it is not defined')
                continue
            if not ctx.must_succeed(o):
                continue
            ctx.sim.probe('spectra')
            got, gi = o.value
            if len(got) != len(cc):
                ctx.fail('channels', f'{label}: {len(got)} channels')
            if tgt == 'run':
                gi = [gi]
            else:
                gi = list(zip(*gi))
            if [tuple(int(v) for v in g) for g in gi] != info:
                ctx.fail('windows', f'{label}: windows {gi}, expected {info}')
            for i, c in enumerate(cc):
                ctx.close(got[i], want[i], f'{label}, channel {c}', 1e-9)

    for i, ops in enumerate(w['clients']):
        ctx.client(f'client{i}', lambda ops=ops: client(ops))
    ctx.go()
    ctx.disk.heal_all()
    ctx.disk.armed = False
    ctx.client('final', lambda: client([dict(op, lazy=False) for op in w['clients'][0][:1]]
                                       if w['clients'] else []))
    ctx.go()
