""" Generators of simulated field surveys (pure JSON workloads -> bytes/arrays). """
import numpy as np

RATES_EXACT = [1., 2., 4., 8., 16., 32., 64., 128., 256., 512., 1024., 4096.]
RATES_ODD = [15., 150., 2400., 24000., 50., 250., 1000.]
EPOCHS = [0, 1, 1000, 1_300_000_000, 1_600_000_123]


def rnd_samples(seed, n, bits=24):
    g = np.random.Generator(np.random.PCG64(seed))
    a = g.integers(-2 ** bits, 2 ** bits, n)
    return a.astype(np.int32)


def sim_opts(rng, p_multi=0.6, workers=True):
    """ scheduling strategy of one run (swarm) """
    o = {}
    o['workers'] = rng.choice([1, 2, 3, 4]) if workers and rng.random() < p_multi else 1
    s = rng.random()
    if s < 0.25:
        o['p_switch'] = rng.choice([0.02, 0.05, 0.1])
    elif s < 0.6:
        o['p_switch'] = rng.choice([0.2, 0.4, 0.7])
    elif s < 0.9:
        o['p_switch'] = 0.01
        o['p_hot'] = rng.choice([0.3, 0.6])
        o['hot_salt'] = rng.randrange(1000)
        o['hot_mod'] = rng.choice([2, 4, 8])
    else:
        o['p_switch'] = 0.0
    if rng.random() < 0.15:
        o['opcodes'] = True
    return o


def disk_cfg(rng, kinds, p_none=0.25, max_faults=4, permute=0.3):
    c = {'rates': {}, 'max': 0, 'heal': rng.choice([1, 2, 4, 8]),
         'permute': rng.random() < permute, 'hot': rng.random() < 0.5}
    if rng.random() >= p_none:
        ks = [k for k in kinds if rng.random() < 0.5] or [rng.choice(kinds)]
        p = rng.choice([0.01, 0.03, 0.08, 0.2])
        c['rates'] = {k: p for k in ks}
        c['max'] = rng.randint(1, max_faults)
        if rng.random() < 0.3:
            c['ops'] = rng.sample(['open', 'read', 'fd', 'stat', 'list'], rng.randint(1, 3))
    return c


def chunk_for(rng, nsamples, itemsize=4):
    """ a dask array.chunk-size giving between 1 and ~8 chunks """
    if rng.random() < 0.2:
        return '128MiB'
    return f'{max(8, nsamples * itemsize // rng.choice([1, 2, 3, 5, 8]))}B'


# ------------------------------------------------------------------- ATS files
def gen_ats(rng, n=None, rate=None, start=None, name='c.ats'):
    return dict(name=name, n=n or rng.choice([1, 2, 7, 33, 64, 100, 257]),
                seed=rng.randrange(1 << 30), rate=rate or rng.choice(RATES_EXACT + RATES_ODD),
                start=rng.choice(EPOCHS) if start is None else start,
                lsb=rng.choice([1.0, 0.5, 1e-3, 2.3283064365386963e-07, 0.1]),
                hl=rng.choice([1024, 1024, 1024, 1028, 1100]))


def ats_raw(spec):
    return rnd_samples(spec['seed'], spec['n'], spec.get('bits', 24))


def ats_values(spec):
    return spec['lsb'] * ats_raw(spec)


def write_ats(ctx, spec, rel=None):
    from . import ref
    data = ref.ats_bytes(ats_raw(spec), spec['rate'], spec['start'], spec['lsb'], spec['hl'],
                         fields=spec['seed'] if spec['seed'] % 3 and spec['hl'] >= 1024 else None)
    ctx.simulated_seconds += spec['n'] / spec['rate']
    return ctx.write(rel or spec['name'], data)


def gen_slice(rng, n, dask=False):
    """ [start, stop, step] of a python slice, or an integer index

    dask itself mishandles some reversed slices that select nothing: those are
    left out when the slice goes through a dask array """
    s = rng.random()
    if s < 0.2:
        return [None, None, None]
    if s < 0.3:
        return rng.randrange(-n, n)
    a = rng.choice([None, rng.randrange(-n - 2, n + 3)])
    b = rng.choice([None, rng.randrange(-n - 2, n + 3)])
    c = rng.choice([None, None, 1, 2, 3, 7, -1, -2])
    if dask and c is not None and c < 0:
        return [None, None, c]
    return [a, b, c]


def as_index(sl):
    return sl if isinstance(sl, int) else slice(*sl)


def gen_ats_fixed(k):
    """ one of a group of files that load together """
    return dict(name=f'fixed{k}.ats', n=50, seed=777 + k, rate=64., start=1000, lsb=0.5, hl=1024)
