""" C07: an interrupted operation leaves no trace. """
import builtins
import gc

import numpy as np

from .. import boot, mt, ref, survey, world
from ..core import InvalidWorkload
from ..survey import Refuse, Unknown

rzb = boot.rzb
ID = 'C07'
SHRINK = ['ops', 'sites', 'sites.*.runs']


def gen(rng, tier):
    w = survey.gen_sites(rng, nsites=rng.choice([1, 2]), max_runs=3)
    names = [n for s in w['sites'] for n in s['names'] if n]
    names += [g for s in w['sites'] for g in s['groups']]
    s = mt.gen_survey(rng, n=rng.choice([128, 200]))
    ops = []
    for _ in range(rng.randint(2, 7)):
        k = rng.choice(['edit', 'edit', 'edit', 'edit', 'load', 'loaddir', 'read', 'spectrum', 'imp', 'imp',
                        'fit', 'metronix', 'phoenix', 'pack', 'inv', 'mass'])
        op = dict(k=k, inject=rng.choice([['KeyboardInterrupt'], ['MemoryError'],
                                          ['KeyboardInterrupt', 'MemoryError'], []]),
                  p=rng.choice([.003, .01, .03, .1]), i=rng.randrange(99))
        if k == 'edit':
            op['edit'] = survey.gen_op(rng, names)
        elif k in ('imp', 'spectrum', 'mass'):
            o = mt.gen_opts(rng, s)
            o['fourier']['Nper'] = rng.choice([2, 3])
            op['opts'] = o
            op['freqs'] = [mt.gen_freq(rng, s, o['fourier'], 10, 24)
                           for _ in range(rng.choice([1, 2]))]
            if k == 'mass':
                op['freqs'] = op['freqs'][:1]
            op['silent'] = rng.random() < .7
            if rng.random() < .4:       # the interrupt comes while a callback runs
                op['boom'] = [rng.choice(['KeyboardInterrupt', 'MemoryError', 'OSError']),
                              rng.choice([0, 0, 1, 1, 2, 3, 5, 9])]
                op['inject'] = []
        elif k == 'fit':
            op['seed'] = rng.randrange(1 << 30)
            op['weights'] = mt.gen_weights(rng)
        ops.append(op)
    w.update(survey=s, ops=ops, sim=dict(world.sim_opts(rng), p_inject=rng.choice([.003, .01, .03, .1])),
             disk=world.disk_cfg(rng, ['eio', 'emfile', 'enomem', 'memerr', 'cut', 'vanish'],
                                 p_none=.4, permute=0),
             cold=rng.random() < .5, cal=dict(seed=rng.randrange(1 << 20), rate=rng.choice([128., 4096.])),
             chunk_size=rng.choice(['128MiB', '128MiB', '400B']))
    return w


def cal_files(ctx, spec):
    g = np.random.Generator(np.random.PCG64(spec['seed']))
    def table(n):
        f = np.sort(g.uniform(1, 1000, n))
        return [(float(a), float(b), float(c)) for a, b, c in
                zip(f, g.uniform(.1, 2, n), g.uniform(-90, 90, n))]
    on, off = table(6), table(5)
    p1 = ctx.write('data/metronix_calibration/MFS06_1.txt', ref.metronix_text(on, off).encode())
    rows = [(float(f), 2 + k % 2) + tuple(float(x) for x in g.normal(size=4))
            for k, f in enumerate(np.sort(g.uniform(1, 500, 8)))]
    p2 = ctx.write('box.cts', ref.phoenix_text(2, rows).encode())
    return p1, p2


def run(ctx):
    w = ctx.w
    base = []
    for i in range(len(w['sites'])):
        if not w['sites'][i]['runs']:
            raise InvalidWorkload
        try:
            base.append(survey.build_site(ctx, w, i))
        except (Refuse, Unknown):
            raise InvalidWorkload
    s = w['survey']
    mtset = mt.build_survey(ctx, s, 'mt')
    twin = mt.build_survey(ctx, dict(s, store='memory'), 'twin')
    files = [world.gen_ats_fixed(k) for k in range(3)]
    paths = [world.write_ats(ctx, f) for f in files]
    p1, p2 = cal_files(ctx, w['cal'])
    freqs_at = [3.7, 20., 111.]
    cache = {}
    boom = []           # [exception, calls of callbacks until then]

    def cb(fn):
        """ a callback during which the planned interrupt comes """
        if fn is None or fn.__class__ is np.ndarray:
            return fn

        def call(*a):
            if boom:
                if not boom[1]:
                    exc = getattr(builtins, boom[0])
                    boom.clear()
                    ctx.probe('interrupted callbacks')
                    raise exc('planned')
                boom[1] -= 1
            return fn(*a)
        return call

    def shared(spec):
        """ objects used again by the repetition """
        key = repr(spec)
        if key not in cache:
            cache[key] = mt.make_weights(spec)
        return cache[key]

    def sig_value(sig):
        return [sig.sampling_rate, sig.start] + [np.asarray(d) for d in sig.data]

    def imp_value(r):
        return [r.impedance, r.error, r.transfer_mag] + [np.asarray(t, float) for x in r.invalid_time
                                                         for t in x]

    def inventory(sset):
        inv = rzb.Inventory()
        for t in sset.tags:
            inv.append(sset.select_channels(t))
        return inv
    remotes = ['R'] if s['nr'] else []
    mtinv, twininv = inventory(mtset), inventory(twin)
    pool = list(base)

    def kinds(op, sset, weights, inv):
        """ operation -> (callable giving the object, callable giving plain values) """
        k = op['k']
        if k == 'load':
            return lambda: rzb.io.load_ats(paths), sig_value
        if k == 'loaddir':
            return lambda: rzb.io.ats.load_ats_from(ctx.path('dir')), sig_value
        if k == 'metronix':
            return (lambda: rzb.calibrations.metronix(p1, w['cal']['rate']),
                    lambda f: [f(x) if x != 3.7 or w['cal']['rate'] <= 512 else 0 for x in inside])
        if k == 'phoenix':
            return (lambda: rzb.calibrations.phoenix(p2, 2),
                    lambda fs: [f(x) for f in fs for x in (pinside,)])
        if k == 'spectrum':
            o = op['opts']['fourier']
            win = mt.make_window(o['window'])
            if 'boom' in op and sset is mtset:
                win = cb(win)
            return (lambda: sset.fourier_coefficients(op['freqs'][0], o['Nper'], o['overlap'], win),
                    lambda r: list(r[0]) + [np.array(x) for x in r[1]])
        if k in ('imp', 'mass'):
            kw = mt.kwargs_for(op['opts'], weights=weights(op['opts']['weights']))
            if op['opts']['remote_weights'] is not None:
                kw['remote_weights'] = weights(op['opts']['remote_weights'])
            if 'boom' in op and sset is mtset:
                for name in ('weights', 'remote_weights'):
                    if kw[name] is not None:
                        kw[name] = [cb(x) for x in kw[name]]
                kw['prefilter'] = cb(kw['prefilter'])
                kw['fourier_opts']['window'] = cb(kw['fourier_opts']['window'])
            if k == 'imp':
                return (lambda: rzb.utils.impedance(sset, op['freqs'], silent_fail=op['silent'], **kw),
                        imp_value)
            kw.pop('remote')
            iv = [(-1e18, 1e18)]
            return (lambda: rzb.utils.impedance_mass_proc(inv, remotes, op['freqs'], iv, kw),
                    lambda r: [np.array(repr(r.remote_combination))] + [
                        x for a, b, c, d in zip(r.impedance, r.invalid_time, r.error, r.transfer_mag)
                        for e, f, g, h in zip(a, b, c, d)
                        for x in [e, g, h] + [np.asarray(t, float) for y in f for t in y]])
        if k == 'fit':
            g = np.random.Generator(np.random.PCG64(op['seed']))
            b = g.normal(size=(2, 40)) + 1j * g.normal(size=(2, 40))
            e = np.array([[1, 2j], [-1, 1]]) @ b + .1 * g.normal(size=(2, 40))
            wt = weights(op['weights'])
            return (lambda: rzb.mestimator.transfer_function(e, b, wt),
                    lambda r: [r[0]] + list(r[1]))
        raise KeyError(k)
    on = [float(r.split()[0]) for r in ctx_text(p1, 'Chopper On' if w['cal']['rate'] <= 512
                                                else 'Chopper Off')]
    inside = [x for x in (on[0] + .3 * (on[-1] - on[0]), on[-1] - .1, 3.7)]
    if w['cal']['rate'] > 512 or on[0] <= 3.7:
        inside = inside[:2]
    pf = [float(x.split(',')[0]) for x in open(p2).read().split('\n')[1:] if ', 2,' in x]
    pinside = .4 * pf[0] + .6 * pf[-1]
    for n in range(3):
        world.write_ats(ctx, files[n], f'dir/{n}.ats')

    # what a never interrupted run gives, with objects of its own
    expected = []
    for op in w['ops']:
        if op['k'] in ('edit', 'read', 'pack', 'inv'):
            expected.append(None)
            continue
        make, value = kinds(op, twin, mt.fresh_weights, twininv)
        try:
            res = value(make())
            if op['k'] in ('imp', 'mass'):
                amb = mt.ref_impedance(s, op['opts'], op['freqs'])
                if 'ambiguous' in amb or any(a is None for a in amb) and op['k'] == 'mass':
                    raise InvalidWorkload
                if op['k'] == 'mass':       # other combinations: stability unknown
                    o2 = dict(op['opts'], remote=not op['opts']['remote'])
                    if s['nr'] and 'ambiguous' in mt.ref_impedance(s, o2, op['freqs']):
                        raise InvalidWorkload
            expected.append(res)
        except InvalidWorkload:
            raise
        except Exception as ex:
            expected.append(ex)

    def same(got, want, what):
        if len(got) != len(want):
            ctx.fail('trace-left', f'{what}: {len(got)} results, expected {len(want)}')
        for i, (a, b) in enumerate(zip(got, want)):
            a, b = np.asarray(a), np.asarray(b)
            if a.dtype.kind in 'fc':
                ctx.close(a, b, f'{what}: item {i}', 1e-6, kind='trace-left')
            else:
                ctx.equal(a, b, f'{what}: item {i}', 'trace-left')

    def partly_nan(got, want, what):
        """ an interrupted estimation reported some frequencies as NaN """
        if got.impedance.shape != want[0].shape:
            ctx.fail('trace-left', f'{what}: shape {got.impedance.shape}')
        for i, z in enumerate(got.impedance):
            if not np.isnan(z).all():
                ctx.close(z, want[0][i], f'{what}: frequency {i}', 1e-6, kind='wrong-after-interrupt')

    def client():
        err0 = np.geterr()
        for n, op in enumerate(w['ops']):
            k = op['k']
            inject = op['inject']
            model = None
            if k == 'edit':
                label, ins, real, mod = survey.prepare(op['edit'], pool)
                try:
                    model = mod()
                except Refuse:
                    model = 'refuse'
                except Unknown:
                    continue
                make = real
            elif k == 'read':
                sset, model = pool[op['i'] % len(pool)]
                label = 'read'
                make = lambda: [boot.dask.compute(*x.data) for x in sset.signals]
            elif k in ('pack', 'inv'):
                sset, m0 = pool[op['i'] % len(pool)]
                if not m0.tags or not m0.runs:
                    continue
                label = k
                t0 = sorted(m0.tags)[0]
                if k == 'inv':
                    inv = rzb.Inventory([sset])
                    make = lambda: inv.filter(t0)[0]
                    model = m0.channels(t0)
                else:
                    inv = rzb.Inventory([sset])
                    make = lambda: inv.pack()
                    try:
                        model = m0.channels(sorted(m0.tags)).consecutive()
                    except Unknown:
                        continue
            else:
                label = k
                make, value = kinds(op, mtset, shared, mtinv)
            # a cold run does not look at the objects between the operations, so that
            # what they compute on demand is first needed by the interrupted operation
            cold = w['cold']
            with ctx.quiet():
                before = None if cold else [survey.digest(x) for x, _ in pool] + [
                    survey.digest(x) for x in (mtset, mtinv)]
            boom[:] = op.get('boom', [])
            o = ctx.attempt(label, make, inject=inject)
            if op.get('boom') and not boom:
                o.excused = True
            boom.clear()
            if o.ok:
                ctx.probe('completed')
            else:
                ctx.probe('aborted:' + type(o.error).__name__)

            def check(o, what):
                if k in ('edit', 'pack', 'inv'):
                    if model == 'refuse':
                        if o.ok:
                            ctx.fail('not-refused', f'{what} should be refused')
                        return
                    with ctx.quiet():
                        survey.check_meta(ctx, o.value, model, what)
                elif k == 'read':
                    for j, (vals, r) in enumerate(zip(o.value, model.runs)):
                        for c, (v, x) in enumerate(zip(vals, r.cols)):
                            ctx.equal(v, x, f'{what}: run {j} channel {c}', 'wrong-samples')
                else:
                    want = expected[n]
                    if isinstance(want, Exception):
                        if o.ok and not (k in ('imp', 'mass') and op['silent']):
                            ctx.fail('trace-left', f'{what} gave a result, expected {want!r}')
                        return
                    with ctx.quiet():
                        got = value(o.value)
                    same(got, want, what)
            # what was obtained in spite of the interruption has to be right
            if o.ok:
                if k in ('metronix', 'phoenix') and ctx.disk.window_between(o.s0, o.s1):
                    pass            # text files don't tell their length
                elif k == 'imp' and o.excused and isinstance(expected[n], Exception):
                    pass            # a fault hid the failure of the fit: NaN
                elif k == 'imp' and o.excused:
                    partly_nan(o.value, expected[n], f'interrupted {label}')
                elif k != 'mass' or not o.excused:
                    ctx.calm(lambda: check(o, f'{label} (interrupted)' if o.excused else label))
            else:
                if model != 'refuse' and not isinstance(expected[n], Exception):
                    ctx.must_succeed(o)
                err = o.error
                o.error = err.__traceback__ = None
                del err
            with ctx.quiet():
                gc.collect(0)
                after = None if cold else [survey.digest(x) for x, _ in pool] + [
                    survey.digest(x) for x in (mtset, mtinv)]
            if after != before:
                bad = [i for i, (a, b) in enumerate(zip(before, after)) if a != b]
                ctx.fail('input-modified', f'{label} modified its inputs {bad}')
            if ctx.disk.left_open():
                ctx.fail('leak', f'{label} left {ctx.disk.left_open()} open')
            if np.geterr() != err0:
                ctx.fail('errstate', f'{label}: float error handling is {np.geterr()}, was {err0}')
            # repeat it with the same objects and nothing in the way
            ctx.disk.heal_all()

            def again():
                o2 = ctx.attempt(label + ' repeated', make)
                if not o2.ok:
                    if model == 'refuse' or isinstance(expected[n], Exception):
                        return o2
                    import traceback
                    ctx.fail('trace-left', f'{o2.describe()} after an interruption: ' + ''.join(
                        traceback.format_exception(o2.error)[-3:]))
                check(o2, label + ' repeated')
                return o2
            o2 = ctx.calm(again)
            if k == 'edit' and o2.ok and model != 'refuse':
                if cold:
                    o2 = ctx.calm(lambda: ctx.attempt(label + ' once more', make))
                    ctx.must_succeed(o2)
                pool.append((o2.value, model))
    ctx.client('client', client)
    ctx.go()
    ctx.disk.heal_all()
    ctx.disk.armed = False
    for k, (a, m) in enumerate(pool):
        survey.check_meta(ctx, a, m, f'object {k} at the end')
        survey.check_data(ctx, a, m, f'object {k} at the end')


def ctx_text(path, section):
    """ rows of a section of a metronix file """
    with open(path) as f:
        lines = f.read().split('\n')
    i = lines.index(section) + 1
    j = lines.index('', i)
    return lines[i:j]
