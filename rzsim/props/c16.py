""" C16: mass processing equals one-by-one processing. """
import contextlib
import io
import itertools

import numpy as np

from .. import boot, mt, ref, survey, world
from ..core import InvalidWorkload, Violation

rzb = boot.rzb
ID = 'C16'
SHRINK = ['clients', 'clients.*.freqs', 'clients.*.intervals', 'remotes']

NAMES = ['R1', 'R2', 'R3', 'zz', 'B2', 'Q']


def gen(rng, tier):
    s = mt.gen_survey(rng, n=rng.choice([160, 256]), remote=0,
                      shapes=[(2, 2), (2, 2), (1, 2), (1, 1), (2, 1)])
    nrem = rng.choice([0, 1, 1, 2, 2, 2, 3] if tier != 'quick' else [0, 1, 1, 2, 2, 3])
    remotes = []
    for name in rng.sample(NAMES, nrem):
        # per run: None (not recorded) or [samples lost at the start, at the end]
        cover = [None if rng.random() < (.12 if len(s['runs']) > 1 else .06) else
                 [rng.choice([0, 0, 7, 40]), rng.choice([0, 0, 13, 50 if m > 130 else 20])]
                 for _, m in s['runs']]
        remotes.append(dict(name=name, cover=cover, seed=rng.randrange(1 << 28),
                            split=rng.random() < .3, noise=rng.choice([.01, .2])))
    clients = []
    nclients = rng.choice([1, 1, 2])
    for _ in range(nclients):
        o = mt.gen_opts(rng, s)
        o['fourier']['Nper'] = rng.choice([2, 3])
        kind = rng.choice(['impedance'] * 3 + ['prefilter'])
        if kind == 'prefilter':
            o['prefilter'] = ['cod', .3]
        freqs = [mt.gen_freq(rng, s, o['fourier'], 10, 24) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < .15 and kind == 'impedance':
            freqs.insert(rng.randrange(2), s['rate'] * .75)      # impossible
        intervals = []
        for _ in range(rng.choice([1, 1, 2, 3] if nrem < 3 else [1, 1, 2])):
            r = rng.random()
            if r < .3:
                iv = ['all']
            elif r < .9:
                iv = ['part', rng.randrange(len(s['runs'])), rng.choice([0, .1, .3, .5]),
                      rng.choice([.6, .8, 1.])]
            else:
                iv = ['outside', rng.choice([-1e6, 1e6])]
            intervals.append(iv)
        names = [r['name'] for r in remotes]
        rng.shuffle(names)
        clients.append(dict(kind=kind, opts=o, freqs=freqs, intervals=intervals,
                            names=names[:rng.randint(0, len(names))] if rng.random() < .3 else names,
                            combine=rng.random() < .75, twice=rng.random() < .25))
        c = clients[-1]
        budget = (16 if tier == 'quick' else 60) // nclients
        while len(c['intervals']) > 1 and budget < (
                2 ** (len(c['names']) * c['combine']) * len(freqs) * len(intervals)
                * (1 + c['twice'])):
            intervals.pop()
    sim = world.sim_opts(rng)
    if tier == 'quick':
        # the concurrency of estimations is C05's subject
        sim.pop('opcodes', None)
        sim['p_switch'] = min(sim['p_switch'], .1)
    return dict(survey=s, remotes=remotes, clients=clients, sim=sim,
                local=rng.choice(['whole', 'whole', 'split']),
                disk=world.disk_cfg(rng, ['eio', 'emfile', 'enomem', 'memerr', 'cut', 'vanish'],
                                    p_none=.5, max_faults=3),
                chunk_size='128MiB')


def build(ctx, w):
    """ (inventory, exact columns) ; columns: {tag: per run (first, list of arrays)} """
    s = w['survey']
    arrs = [mt.LSB * a for a in mt.survey_arrays(s)]
    cs = mt.cal_specs(s)
    ne, nb = s['ne'], s['nb']
    cov = {'E': [(0, list(a[:ne])) for a in arrs], 'B': [(0, list(a[ne:])) for a in arrs]}
    cals = {'E': cs[:ne], 'B': cs[ne:]}
    for r in w['remotes']:
        g = np.random.Generator(np.random.PCG64(r['seed']))
        mix = np.eye(nb) * 3 + g.normal(size=(nb, nb))
        col = []
        for a, c in zip(arrs, r['cover']):
            x = mix @ a[ne:] + r['noise'] * g.normal(size=(nb, a.shape[1]))
            x = mt.LSB * np.round(x / mt.LSB)
            if c is None:
                col.append(None)
            else:
                col.append((c[0], [v[c[0]:len(v) - c[1]] for v in x]))
        cov[r['name']] = col
        cals[r['name']] = [1.25 + k for k in range(nb)] if s['cal'] else [1.] * nb

    def sigset(tags, k, name):
        """ the run k of the groups named """
        start, m = s['runs'][k]
        cols, cl, lay = [], [], {}
        first = cov[tags[0]][k][0]
        for t in tags:
            lay[t] = tuple(range(len(cols), len(cols) + len(cov[t][k][1])))
            cols += cov[t][k][1]
            cl += cals[t]
        at = start + first / s['rate']
        ctx.simulated_seconds += len(cols[0]) / s['rate']
        if s['store'] == 'file' and at == int(at):
            paths = [ctx.write(f'{name}/r{k}/c{c:02d}.ats', ref.ats_bytes(
                np.round(x / mt.LSB).astype(np.int32), s['rate'], int(at), mt.LSB))
                for c, x in enumerate(cols)]
            sig = rzb.io.load_ats(paths, calibrations=list(cl))
        else:
            data = [x.copy() for x in cols]
            if s['store'] == 'dask':
                data = [boot.dask.array.from_array(x, chunks=max(1, len(x) // 2)) for x in data]
            sig = rzb.SyncSignal(data, s['rate'], at, list(cl))
        return rzb.SignalSet(lay, sig)

    sets = []
    R = range(len(s['runs']))
    if w['local'] == 'whole':
        parts = [sigset(['E', 'B'], k, 'local') for k in R]
        sets.append(parts[0].join(*parts[1:]))
    else:
        sets += [sigset([t], k, 'local' + t) for k in R for t in ('B', 'E')]
    for r in w['remotes']:
        parts = [sigset([r['name']], k, r['name']) for k in R if r['cover'][k]]
        if not parts:
            # a station that recorded nothing in common: much later
            x = [np.zeros(20) for _ in range(nb)]
            sets.append(rzb.SignalSet({r['name']: range(nb)}, rzb.SyncSignal(
                x, s['rate'], s['runs'][-1][0] + 1e7, cals[r['name']])))
        elif r['split']:
            sets += parts
        else:
            sets.append(parts[0].join(*parts[1:]))
    return rzb.Inventory(sets), cov, cals


def interval(s, iv):
    if iv[0] == 'all':
        return -1e12, 1e12
    if iv[0] == 'outside':
        t = s['runs'][-1][0] + abs(iv[1]) if iv[1] > 0 else s['runs'][0][0] - 1e6
        return t, t + 10
    start, m = s['runs'][iv[1] % len(s['runs'])]
    # between two samples
    return (start + (int(iv[2] * (m - 1)) - .5) / s['rate'],
            start + (int(iv[3] * (m - 1)) + .5) / s['rate'])


def separate(s, cov, cals, groups, t0, t1, noise=None):
    """ signal set in memory of one cell (None when nothing is left);
    groups: {tag: [names]} """
    tags, n = {}, 0
    for t, names in groups.items():
        k = sum(len(next(c for c in cov[x] if c)[1]) for x in names) if all(
            any(cov[x]) for x in names) else None
        if k is None:
            return None
        tags[t] = tuple(range(n, n + k))
        n += k
    sigs = []
    for k, (start, m) in enumerate(s['runs']):
        parts = [cov[x][k] for names in groups.values() for x in names]
        if any(p is None for p in parts):
            continue
        a = max(p[0] for p in parts)
        b = min(p[0] + len(p[1][0]) for p in parts)
        a = max(a, int(np.ceil((t0 - start) * s['rate'])) if t0 > -1e11 else 0)
        b = min(b, int(np.floor((t1 - start) * s['rate'])) + 1 if t1 < 1e11 else m)
        if b - a < 2:
            continue
        cols = [v[a - p[0]:b - p[0]].copy() for p in parts for v in p[1]]
        if noise is not None:
            cols = [v * (1 + 1e-12 * noise.normal(size=len(v))) for v in cols]
        cl = [c for names in groups.values() for x in names for c in cals[x]]
        sigs.append(rzb.SyncSignal(cols, s['rate'], start + a / s['rate'], cl))
    return rzb.SignalSet(tags, *sigs) if sigs else None


def alike(a, b):
    for x, y in ((a.impedance, b.impedance), (a.error, b.error), (a.transfer_mag, b.transfer_mag)):
        if np.shape(x) != np.shape(y) or np.any(np.isnan(x) != np.isnan(y)):
            return False
        x, y = x[~np.isnan(x)], y[~np.isnan(y)]
        if x.size and not np.max(np.abs(x - y)) <= 2e-8 * np.max(np.abs(x)):
            return False
    return [len(v) for x in a.invalid_time for v in x] == [len(v) for x in b.invalid_time for v in x]


def values_model(ctx, s, data, cals, freq, got):
    """ separately computed prefilter values against the model """
    ne, nb = s['ne'], s['nb']
    coeffs, times = [], []
    for sig in data.signals:
        x = ref.fourier(list(sig.data)[:ne + nb], s['rate'], freq, 8, .71, ['slepian', 4],
                        [lambda f, v=v: v for v in cals['E'] + cals['B']])
        if x is None or x == 'ambiguous':
            return
        coeffs.append(x[0])
        Nw, Lw, shift = x[1]
        times.append(sig.start + (shift * np.arange(Nw) + .5 * Lw) / s['rate'])
    co = [np.concatenate([x[i] for x in coeffs]) for i in range(ne + nb)]
    (vals,), (at,) = got
    ctx.close(at, np.concatenate(times), 'times of the prefilter values', 1e-12, 1e-9)
    if len(vals) != ne:
        ctx.fail('shape', f'{len(vals)} lines of prefilter values, expected {ne}')
    for a, e in zip(vals, co[:ne]):
        try:
            want = ref.cod_values(e, np.transpose(co[ne:]), 10)
        except (ref.Fail, ref.Ambiguous, np.linalg.LinAlgError):
            continue
        if np.shape(a) != want.shape:
            ctx.fail('shape', f'{np.shape(a)} prefilter values, expected {want.shape}')
        ok = want > 1e-3
        ctx.close(np.asarray(a)[ok], want[ok], 'prefilter values', 1e-6)
        ctx.probe('prefilter values against the model')


def run(ctx):
    w = ctx.w
    s = w['survey']
    inv, cov, cals = build(ctx, w)
    if not w['clients']:
        raise InvalidWorkload
    for c in w['clients']:
        c['names'] = [n for n in c['names'] if n in cov]
        if not c['freqs'] or not c['intervals']:
            raise InvalidWorkload
    before = survey.digest(inv)

    # every cell on its own, beforehand
    cells, again, suspects = {}, {}, []
    box = io.StringIO()
    with contextlib.redirect_stdout(box):
        for ci, c in enumerate(w['clients']):
            names = c['names']
            combos = list(itertools.product(*[(None, e) for e in range(len(names))])) \
                if c['combine'] or c['kind'] == 'prefilter' else [tuple(range(len(names)))]
            c_cells = cells[ci] = {}
            for combo in combos:
                rem = [names[e] for e in combo if e is not None]
                for i, iv in enumerate(c['intervals']):
                    t0, t1 = interval(s, iv)
                    groups = {'E': ['E'], 'B': ['B']}
                    if rem:
                        groups['R'] = rem
                    if c['kind'] == 'prefilter':
                        groups = {'E': ['E'], 'B': ['B']}
                        groups.update({n: [n] for n in [r['name'] for r in w['remotes']]})
                    data = separate(s, cov, cals, groups, t0, t1)
                    for j, f in enumerate(c['freqs']):
                        key = tuple(e for e in combo if e is not None), i, j
                        if data is None:
                            c_cells[key] = None
                            continue
                        if c['kind'] == 'prefilter':
                            try:
                                c_cells[key] = rzb.utils.prefilter_values(
                                    data, [f], mt.make_prefilter(c['opts']['prefilter']))
                            except Exception:
                                c_cells[key] = None
                            else:
                                values_model(ctx, s, data, cals, f, c_cells[key])
                            continue
                        kw = mt.kwargs_for(c['opts'])
                        kw['remote'] = 'R' if rem else None
                        res = rzb.utils.impedance(data, [f], **kw)
                        c_cells[key] = None if np.isnan(res.impedance).all() else res
                        if c_cells[key] is None and f < s['rate'] / 2:
                            # can be computed but the fit didn't converge
                            c_cells[key] = 'ambiguous'
                        again[ci, key] = lambda noise, a=(groups, t0, t1), f=f, kw=kw: \
                            rzb.utils.impedance(separate(s, cov, cals, *a, noise), [f], **kw)

    def client(ci, c):
        o = c['opts']
        names, freqs = c['names'], c['freqs']
        ivs = [interval(s, iv) for iv in c['intervals']]
        kw = mt.kwargs_for(o)
        kw.pop('remote')
        if ci % 2:
            kw['remote'] = 'something else'
        given = survey.digest([dict(kw), list(names), list(freqs), list(ivs)])
        what = f'{len(names)} remotes, {len(ivs)} intervals, {len(freqs)} frequencies'
        for _ in range(1 + c['twice']):
            if c['kind'] == 'prefilter':
                values(ci, c, names, freqs, ivs, what)
            else:
                estimates(ci, c, names, freqs, ivs, kw, what)
            with ctx.quiet():
                if survey.digest([dict(kw), list(names), list(freqs), list(ivs)]) != given:
                    ctx.fail('modified', f'{what}: the arguments were modified')
                if survey.digest(inv) != before:
                    ctx.fail('modified', f'{what}: the inventory was modified')

    def estimates(ci, c, names, freqs, ivs, kw, what):
        o = c['opts']
        t = ctx.sim.current.owner
        out = ctx.attempt('mass processing ' + what, lambda: rzb.utils.impedance_mass_proc(
            inv, names, freqs, ivs, kw, c['combine']))
        if not out.ok:
            ctx.fail('not-isolated', out.describe() + trace(out))
        nf = sum(1 for st, ow, *_ in ctx.disk.fired if ow == t and out.s0 <= st <= out.s1)
        if ctx.disk.window_between(out.s0, out.s1):
            nf = 10 ** 9
        res = out.value
        expect = {k[0] for k in cells[ci]}
        combos = [tuple(e for e in x if e is not None) for x in res.remote_combination]
        if len(set(combos)) != len(combos) or set(combos) != expect:
            ctx.fail('combinations', f'{what}: combinations {res.remote_combination}')
        for name in ('impedance', 'invalid_time', 'error', 'transfer_mag'):
            v = getattr(res, name)
            if len(v) != len(combos) or any(len(x) != len(ivs) for x in v) or any(
                    len(y) != len(freqs) for x in v for y in x):
                ctx.fail('shape', f'{what}: {name} has the wrong number of cells')
        ne, nb = s['ne'], s['nb']
        for k, combo in enumerate(combos):
            for i in range(len(ivs)):
                nr = nb * len(combo)
                for name, shape in (('impedance', (len(freqs), ne, nb)), ('error', (len(freqs), ne, nb)),
                                    ('transfer_mag', (len(freqs), nb, nr))):
                    got = np.shape(getattr(res, name)[k][i])
                    if got != shape:
                        ctx.fail('shape', f'{what}: {name} of {combo}, interval {i} has shape {got}, '
                                 f'expected {shape}')
                for j in range(len(freqs)):
                    label = f'{what}: remotes {[names[e] for e in combo]}, interval {i}, frequency {j}'
                    want = cells[ci][combo, i, j]
                    got = rzb.utils.ImpedanceResult(*[[getattr(res, n)[k][i][j]] for n in (
                        'impedance', 'invalid_time', 'error', 'transfer_mag')])
                    ctx.probe('cells')
                    isnan = np.isnan(got.impedance).all()
                    if isinstance(want, str):
                        ctx.probe('cells hanging on rounding')
                    elif want is None:
                        ctx.probe('impossible cells')
                        mt.check_failed(ctx, got, 0, label, s, o)
                    elif isnan and nf > 0:
                        nf -= 1
                        ctx.probe('cells spoiled by a fault')
                        mt.check_failed(ctx, got, 0, label, s, o)
                    elif isnan:
                        suspects.append((ci, (combo, i, j), want, Violation(
                            'spurious-nan', f'{label}: NaN although it can be computed')))
                    else:
                        try:
                            mt.compare(ctx, got, want, s, o, label, 1e-6, 'cell-differs')
                        except Violation as e:
                            suspects.append((ci, (combo, i, j), want, e))

    def values(ci, c, names, freqs, ivs, what):
        data = inv.pack()
        if set(data.tags) != set(cov):
            return
        had = survey.digest(data)
        pre = mt.make_prefilter(c['opts']['prefilter'])
        out = ctx.attempt('prefilter values ' + what, lambda: rzb.utils.prefilter_values_mass_proc(
            data, names, freqs, ivs, pre))
        with ctx.quiet():
            if survey.digest(data) != had:
                ctx.fail('modified', f'{what}: the signal set was modified, tags {dict(data.tags)}')
        combos = [tuple(e for e in x if e is not None) for x in
                  itertools.product(*[(None, e) for e in range(len(names))])]
        if not out.ok:
            if not any(v is None for v in cells[ci].values()):
                ctx.must_succeed(out)
            return
        ctx.probe('prefilter values')
        vals, times = out.value
        if len(vals) != len(combos) or len(times) != len(combos):
            ctx.fail('combinations', f'{what}: values for {len(vals)} combinations')
        for k, combo in enumerate(combos):
            for i in range(len(ivs)):
                for j in range(len(freqs)):
                    want = cells[ci][combo, i, j]
                    if want is None:
                        ctx.fail('accepted', f'{what}: interval {i} has no values of its own')
                    for a, b in zip(vals[k][i][j], want[0][0]):
                        ctx.close(a, b, f'{what}: values of {combo}, interval {i}, frequency {j}', 1e-9)
                    ctx.close(times[k][i][j], want[1][0], f'{what}: times of interval {i}', 1e-12, 1e-9)

    for ci, c in enumerate(w['clients']):
        ctx.client(f'client{ci}', lambda ci=ci, c=c: client(ci, c))
    ctx.go()
    for ci, key, want, violation in suspects:
        # does the answer hang on rounding?
        with contextlib.redirect_stdout(box):
            near = [again[ci, key](np.random.Generator(np.random.PCG64(k))) for k in range(6)]
        if all(alike(want, x) for x in near):
            raise violation
        ctx.probe('cells hanging on rounding')
    if survey.digest(inv) != before:
        ctx.fail('modified', 'the inventory was modified')
    ctx.disk.heal_all()
    if ctx.disk.left_open():
        ctx.fail('leak', f'{ctx.disk.left_open()} left open')


def trace(out):
    import traceback
    return '\n' + ''.join(traceback.format_exception(out.error)[-4:])
