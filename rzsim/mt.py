""" Simulated magnetotelluric surveys and estimation set-ups (JSON specs). """
import numpy as np

from . import boot, ref, world

rzb = boot.rzb


# ------------------------------------------------------------------- surveys
def gen_survey(rng, n=None, file_ok=True, remote=None, shapes=None, multi_run=True):
    ne, nb = rng.choice(shapes or [(2, 2), (2, 2), (1, 2), (1, 1), (3, 2), (2, 1)])
    nr = rng.choice([0, 2, 2, 3] if nb == 2 else [0, 1, 2]) if remote is None else remote
    nr = max(nr, nb) if nr else 0
    rate = rng.choice([1., 16., 128., 512., 150., 2400.])
    n = n or rng.choice([256, 400, 512])
    nruns = rng.choice([1, 1, 2]) if multi_run else 1
    start = rng.choice([0, 500, 1_500_000_000])
    runs, t = [], start
    for k in range(nruns):
        m = n // nruns + (k * 7)
        runs.append([t, m])
        t += int(np.ceil(m / rate)) + rng.choice([1, 60])
    return dict(seed=rng.randrange(1 << 30), rate=rate, runs=runs, ne=ne, nb=nb, nr=nr,
                noise=rng.choice([0.01, 0.1, 0.3]), outliers=rng.choice([0, 0, 2, 5]),
                store=rng.choice(['memory', 'file', 'dask']) if file_ok
                else rng.choice(['memory', 'memory', 'dask']),
                cal=rng.random() < .3)


def survey_arrays(s):
    """ integer samples per channel and run, channels ordered E, B, R """
    g = np.random.Generator(np.random.PCG64(s['seed']))
    out = []
    Z = g.normal(size=(s['ne'], s['nb'], 9))
    Tr = g.normal(size=(max(s['nr'], 1), s['nb']))
    for r in range(s['nr']):
        Tr[r, r % s['nb']] += 3
    for _, m in s['runs']:
        b = g.normal(size=(s['nb'], m))
        e = np.array([sum(np.convolve(b[j], Z[i, j])[:m] for j in range(s['nb']))
                      for i in range(s['ne'])])
        e = e + s['noise'] * g.normal(size=e.shape)
        for _ in range(s['outliers']):
            k, w = int(g.integers(0, m)), int(g.integers(1, 20))
            e[int(g.integers(0, s['ne'])), k:k + w] += 60 * g.normal()
        r = np.array([Tr[i] @ b for i in range(s['nr'])]).reshape(s['nr'], m)
        r = r + s['noise'] * g.normal(size=r.shape)
        allc = np.concatenate([e, b, r]) if s['nr'] else np.concatenate([e, b])
        out.append(np.round(allc * 2 ** 12).astype(np.int32))
    return out


LSB = 2. ** -12


def tags_of(s):
    ne, nb, nr = s['ne'], s['nb'], s['nr']
    t = dict(E=list(range(ne)), B=list(range(ne, ne + nb)))
    if nr:
        t['R'] = list(range(ne + nb, ne + nb + nr))
    return t


def cal_specs(s):
    n = s['ne'] + s['nb'] + s['nr']
    return [1.5 + 0.25 * k for k in range(n)] if s['cal'] else [1.0] * n


def build_survey(ctx, s, name, cal_hook=None):
    """ SignalSet of the survey; cal_hook(channel, value) -> calibration """
    arrs = survey_arrays(s)
    sigs = []
    cs = cal_specs(s)
    cals = [cal_hook(k, v) if cal_hook else v for k, v in enumerate(cs)]
    for r, ((start, m), a) in enumerate(zip(s['runs'], arrs)):
        ctx.simulated_seconds += m / s['rate']
        if s['store'] == 'file':
            paths = []
            for c in range(len(a)):
                data = ref.ats_bytes(a[c], s['rate'], start, LSB)
                paths.append(ctx.write(f'{name}/r{r}/c{c:02d}.ats', data))
            sigs.append(rzb.io.load_ats(paths, calibrations=list(cals)))
        else:
            data = [LSB * x for x in a]
            if s['store'] == 'dask':
                data = [boot.dask.array.from_array(x, chunks=max(1, m // 3)) for x in data]
            sigs.append(rzb.SyncSignal(data, s['rate'], start, list(cals)))
    return rzb.SignalSet(tags_of(s), *sigs)


def ref_coeffs(s, freq, fo, channels=None, arrs=None):
    """ (list of coefficient arrays, [(Nw, Lw, shift, rate, start)]) or None """
    arrs = arrs if arrs is not None else survey_arrays(s)
    cs = cal_specs(s)
    out, info = [], []
    for (start, m), a in zip(s['runs'], arrs):
        got = ref.fourier([LSB * x for x in a], s['rate'], freq, fo['Nper'], fo['overlap'],
                          fo['window'], [(lambda f, v=v: v) for v in cs])
        if got is None or got == 'ambiguous':
            return got
        out.append(got[0])
        info.append(got[1] + (s['rate'], float(start)))
    return [np.concatenate([o[i] for o in out]) for i in range(len(cs))], info


# ------------------------------------------------------------------- options
def gen_weights(rng):
    return rng.choice([
        'ls', 'mest', 'mest', 'mest', ['list', None, ['huber', 1.5]],
        ['list', None, ['huber', 2.0], ['thomson', None]],
        ['list', None, ['thomson', 3.0]], ['list', None, ['thomson', None]],
        ['bi', 0.05, 2], ['bi', 0.1, 1], ['bi', 0.05, 3], ['bi', 0.037, 2, 1], ['bi', 0.01, 2, 3]])


def gen_opts(rng, s):
    o = dict(weights=gen_weights(rng),
             prefilter=rng.choice([None, None, None, ['cod', 0.2], ['cod', 0.5],
                                   ['cod', 0.9], ['cod', 0.2, 0.97]]),
             remote=bool(s['nr']) and rng.random() < .6,
             remote_weights=rng.choice([None, None, 'ls', 'mest', ['list', None, ['huber', 1.5]]]),
             fourier=dict(Nper=rng.choice([2, 3, 4]), overlap=rng.choice([0.5, 0.71, 0.25]),
                          window=rng.choice([None, ['slepian', 1.2], ['hann'], ['slepian', 2]])),
             remote_prefilter=rng.choice([None, None, ['cod', 0.1], ['cod', 0.4]]),
             real=rng.random() < .2,
             keep=rng.random() < .6,
             mest=rng.choice([{}, {}, {'tol': 1e-3}, {'maxit': 200}]))
    return o


def gen_freq(rng, s, fo, lo=12, hi=60):
    """ a frequency with an unambiguous window giving enough windows """
    m = min(r[1] for r in s['runs'])
    hi = max(lo, min(hi, m // 6))
    Lw = rng.randint(min(lo, hi), hi)
    return float('%.6g' % (fo['Nper'] * s['rate'] / (Lw - 0.4)))


def make_weights(spec):
    W = rzb.weights
    if spec is None:
        return None
    if spec == 'ls':
        return W.least_square
    if spec == 'mest':
        return W.mest_weights
    if spec[0] == 'bi':
        return W.bi_weights(*spec[1:])
    out = []
    for x in spec[1:]:
        if x is None:
            out.append(None)
        elif x[0] == 'huber':
            out.append(W.Huber(x[1]))
        else:
            out.append(W.Thomson(x[1]))
    return W.Weights(out)


def fresh_weights(spec):
    if spec == 'mest':
        return make_weights(['list', None, ['huber', 1.5], ['thomson', None]])
    return make_weights(spec)


def ref_weights(spec):
    if spec is None:
        return None
    if spec == 'ls':
        return [None]
    if spec == 'mest':
        return [None, ref.Huber(), ref.Thomson()]
    if spec[0] == 'bi':
        return ref.bi_weights(*spec[1:])
    return [None if x is None else ref.Huber(x[1]) if x[0] == 'huber' else ref.Thomson(x[1])
            for x in spec[1:]]


def make_prefilter(spec):
    return None if spec is None else rzb.prefilters.cod_filter(*spec[1:])


def ref_prefilter(spec):
    return None if spec is None else ref.cod_filter(*spec[1:])


def make_window(spec):
    if spec is None:
        return None
    if spec[0] == 'slepian':
        return rzb.fourier_transform.slepian_window(spec[1])
    return lambda N: ref.make_window(spec, N)


def kwargs_for(o, weights=None, prefilter=None, window='make', rweights='make'):
    fo = dict(Nper=o['fourier']['Nper'], overlap=o['fourier']['overlap'],
              window=make_window(o['fourier']['window']) if window == 'make' else window)
    return dict(
        weights=weights if weights is not None else fresh_weights(o['weights']),
        prefilter=prefilter if prefilter is not None else make_prefilter(o['prefilter']),
        fourier_opts=fo, remote='R' if o['remote'] else None,
        remote_weights=fresh_weights(o['remote_weights']) if rweights == 'make' else rweights,
        remote_prefilter=make_prefilter(o.get('remote_prefilter')), real_pb=bool(o.get('real')),
        mest_opts=dict(o['mest']), keep_invalid_times=o['keep'])


def ref_impedance(s, o, freqs, arrs=None, rtol=1e-5):
    """ reference result: list per frequency of (Z, times, err, T) or None (fails)
    or 'ambiguous' """
    out = []
    t = tags_of(s)
    arrs = arrs if arrs is not None else survey_arrays(s)
    for f in freqs:
        got = ref_coeffs(s, f, o['fourier'], arrs=arrs)
        if got is None or got == 'ambiguous':
            out.append(got)
            continue
        coeffs, info = got
        try:
            def one(coeffs):
                r = ref.impedance_one(
                    coeffs, t['E'], t['B'], t['R'] if o['remote'] else None,
                    ref_weights(o['weights']), ref_weights(o['remote_weights']),
                    ref_prefilter(o['prefilter']), ref_prefilter(o.get('remote_prefilter')),
                    o['mest'], bool(o.get('real')))
                Z, IV, err, T = r
                return [x for x in (Z, err, T) if x is not None], IV, r
            Z, IV, err, T = ref.stable(one, coeffs, rtol)
        except ref.Fail:
            out.append(None)
            continue
        except ref.Ambiguous:
            out.append('ambiguous')
            continue
        times = ref.window_times(IV, info) if o['keep'] else [np.empty(0) for _ in IV]
        out.append((Z, times, err, T))
    return out


def compare(ctx, got, want, s, o, label, rtol=1e-9, kind='differs'):
    """ two ImpedanceResult """
    for name in ('impedance', 'error', 'transfer_mag'):
        ctx.close(getattr(got, name), getattr(want, name), f'{label}: {name}', rtol, kind=kind)
    a, b = got.invalid_time, want.invalid_time
    if len(a) != len(b):
        ctx.fail(kind, f'{label}: {len(a)} lists of rejected times, expected {len(b)}')
    for i, (x, y) in enumerate(zip(a, b)):
        if len(x) != len(y):
            ctx.fail(kind, f'{label}: rejected times of frequency {i}: {len(x)} channels')
        for p, q in zip(x, y):
            ctx.close(np.asarray(p, float), np.asarray(q, float),
                      f'{label}: rejected times of frequency {i}', 1e-12, 1e-9, kind)


def compare_ref(ctx, got, want, s, o, label, skip=(), rtol=1e-5, kind='differs-from-model'):
    """ ImpedanceResult against ref_impedance """
    ne, nb, nr = s['ne'], s['nb'], s['nr'] if o['remote'] else 0
    F = len(want)
    Z, err, T = got.impedance, got.error, got.transfer_mag
    for name, v, shape in (('impedance', Z, (F, ne, nb)), ('error', err, (F, ne, nb)),
                           ('transfer_mag', T, (F, nb, nr))):
        if np.shape(v) != shape:
            ctx.fail('shape', f'{label}: {name} has shape {np.shape(v)}, expected {shape}')
    if len(got.invalid_time) != F:
        ctx.fail('shape', f'{label}: {len(got.invalid_time)} lists of rejected times for {F} frequencies')
    for i, x in enumerate(want):
        if i in skip or x == 'ambiguous':
            continue
        what = f'{label}, frequency {i}'
        if x is None:
            check_failed(ctx, got, i, what, s, o)
            continue
        if np.isnan(Z[i]).all():
            ctx.fail('spurious-nan', f'{what}: NaN although it can be computed')
        ctx.close(Z[i], x[0], f'{what}: impedance', rtol, kind=kind)
        if np.all(np.isfinite(x[2])):
            ctx.close(err[i], x[2], f'{what}: error', rtol, kind=kind)
        if o['remote']:
            ctx.close(T[i], x[3], f'{what}: transfer_mag', rtol, kind=kind)
        if len(got.invalid_time[i]) != ne:
            ctx.fail('shape', f'{what}: {len(got.invalid_time[i])} lists of rejected times')
        for p, q in zip(got.invalid_time[i], x[1]):
            ctx.close(np.asarray(p, float), q, f'{what}: rejected times', 1e-12, 1e-6, kind)


def check_failed(ctx, got, i, what, s, o):
    for name in ('impedance', 'error', 'transfer_mag'):
        v = getattr(got, name)[i]
        if not np.isnan(v).all():
            ctx.fail('not-nan', f'{what}: failed but {name} is {v!r}')
    if sum(len(x) for x in got.invalid_time[i]):
        ctx.fail('not-nan', f'{what}: failed but has rejected times')
