""" C06: a failing frequency never disturbs the others. """
import numpy as np

from .. import boot, mt, ref, world
from ..core import InvalidWorkload

rzb = boot.rzb
ID = 'C06'
SHRINK = ['clients', 'clients.*', 'clients.*.*.freqs']

EXC = dict(ValueError=ValueError, ZeroDivisionError=ZeroDivisionError, OSError=OSError,
           RuntimeError=RuntimeError, KeyError=KeyError, FloatingPointError=FloatingPointError,
           IndexError=IndexError, AssertionError=AssertionError, LinAlgError=np.linalg.LinAlgError)
FREQ_BAD = ['high', 'low', 'zero', 'neg', 'huge']
CALL_BAD = ['cal', 'calnan', 'calzero', 'calinf', 'calinf', 'win', 'pre', 'preall', 'preall1', 'wt', 'wtnan', 'wtzero',
            'nonconv']


def gen(rng, tier):
    s = mt.gen_survey(rng, n=rng.choice([160, 256]), remote=rng.choice([None, 0, None]))
    clients = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            o = mt.gen_opts(rng, s)
            o['fourier']['Nper'] = rng.choice([2, 3])
            fs = []
            for _ in range(rng.choice([1, 2, 3, 3, 4, 5])):
                f = mt.gen_freq(rng, s, o['fourier'], 10, 30)
                bad = None
                if rng.random() < .5:
                    bad = [rng.choice(FREQ_BAD + CALL_BAD * 2), rng.choice(sorted(EXC)),
                           rng.randrange(s['ne'] + s['nb'])]
                    if bad[0] == 'high':
                        f = s['rate'] * rng.choice([.500001, .75, 1, 2])
                    elif bad[0] == 'low':
                        f = s['rate'] / max(r[1] for r in s['runs']) * rng.choice([1., .5, .01])
                    elif bad[0] == 'zero':
                        f = 0.
                    elif bad[0] == 'neg':
                        f = -f
                    elif bad[0] == 'huge':
                        f = 1e18
                fs.append([f, bad])
                if rng.random() < .2 and not (bad and bad[0] in FREQ_BAD):      # a frequency next to it, or the same again
                    f2 = f * rng.choice([1, 1, 1 + 1e-9, 1 + 1e-7])
                    b2 = [rng.choice(CALL_BAD), rng.choice(sorted(EXC)), 0]
                    bad = fs[-1][1] = bad if f2 != f else None
                    fs.append([f2, rng.choice([None, b2]) if f2 != f else None])
                    if rng.random() < .5:
                        fs[-2:] = fs[:-3:-1]
            ops.append(dict(opts=o, freqs=fs, how=rng.choice(['list', 'tuple', 'array']),
                            silent=rng.random() < .75))
        clients.append(ops)
    faulty = rng.random() < .6
    return dict(survey=s, clients=clients, sim=world.sim_opts(rng),
                disk=world.disk_cfg(rng, ['eio', 'emfile', 'enomem', 'memerr', 'cut', 'vanish'],
                                    p_none=0.3 if faulty else 1.1, max_faults=3),
                chunk_size=rng.choice(['128MiB', '128MiB', '300B']))


class Plan:
    """ which callbacks fail: decided by the frequency being processed """

    def __init__(self, ctx, s):
        self.ctx, self.s = ctx, s
        self.now = {}       # thread -> frequency whose coefficients were calibrated last
        self.bad = {}       # thread -> {frequency: [kind, exc, channel]}

    def tid(self):
        s = self.ctx.sim
        return s.current.owner if s.current is not None else None

    def of(self, f=None):
        t = self.tid()
        return self.bad.get(t, {}).get(self.now.get(t) if f is None else f)

    def boom(self, b):
        self.ctx.probe('failed:' + b[0])
        raise EXC[b[1]]('planned failure: ' + b[0])

    def calib(self, channel, value):
        def f(freq):
            self.now[self.tid()] = freq
            b = self.of(freq)
            if b and b[0] == 'calinf':
                # a dead magnetic channel: the system to solve is singular
                if channel == self.s['ne'] + b[2] % self.s['nb']:
                    return float('inf')
            elif b and b[2] == channel:
                if b[0] == 'cal':
                    self.boom(b)
                if b[0] == 'calnan':
                    return float('nan')
                if b[0] == 'calzero':
                    return 0. * freq
            return value + 0 * freq
        return f


class Prefilter:
    def __init__(self, plan, inner, lengths):
        self.plan, self.inner, self.calls = plan, inner, 0

    def __call__(self, e, b):
        bad = self.plan.of()
        if bad and bad[0] == 'pre':
            self.plan.boom(bad)
        if bad and bad[0] == 'preall':
            return np.arange(len(e))
        return self.inner(e, b) if self.inner else np.empty(0, int)


class Weight:
    """ a weight function that fails for the frequencies planned """

    def __init__(self, plan, inner):
        self.plan, self.inner = plan, inner

    def __call__(self, it, residual, e, b, invalid_idx):
        bad = self.plan.of()
        if bad:
            if bad[0] == 'wt':
                self.plan.boom(bad)
            if bad[0] == 'wtzero':
                return np.zeros(len(e))
            if bad[0] == 'wtnan':
                return np.full(len(e), np.nan)
            if bad[0] == 'nonconv':
                return np.full(len(e), 1. + it % 2)
        return self.inner(it, residual, e, b, invalid_idx)


def window_fn(plan, spec, freqs_by_len):
    def f(N):
        t = plan.tid()
        b = freqs_by_len.get(t, {}).get(N)
        if b:
            plan.boom(b)
        w = ref.make_window(spec, N)
        return np.ones(N) if w is None else w
    return f


def run(ctx):
    w = ctx.w
    s = w['survey']
    arrs = mt.survey_arrays(s)
    plain = mt.build_survey(ctx, s, 'p')
    plan = Plan(ctx, s)
    data = mt.build_survey(ctx, s, 'q', cal_hook=plan.calib)

    expected = {}
    for c, ops in enumerate(w['clients']):
        for k, op in enumerate(ops):
            o = op['opts']
            for f, bad in op['freqs']:
                key = (repr(o), f)
                if key in expected or (bad and bad[0] in FREQ_BAD):
                    continue
                want = mt.ref_impedance(s, o, [f], arrs)
                got = None
                if want[0] != 'ambiguous':
                    got = rzb.utils.impedance(plain, [f], **mt.kwargs_for(o))
                    mt.compare_ref(ctx, got, want, s, o, f'frequency {f:g} alone')
                expected[key] = want[0], got

    def client(c, ops):
        t = ctx.sim.current.owner
        for k, op in enumerate(ops):
            o = op['opts']
            freqs = [f for f, _ in op['freqs']]
            bad, by_len, can_weights = {}, {}, True
            wspec = o['weights']
            weights = list(mt.fresh_weights(wspec))
            iterated = [i for i, x in enumerate(weights) if x is not None]
            weights = [x if x is None else Weight(plan, x) for x in weights]
            eff = []
            for f, b in op['freqs']:
                if freqs.count(f) > 1 and b:
                    raise InvalidWorkload
                if b and b[0] in ('wt', 'wtnan', 'wtzero', 'nonconv') and not iterated:
                    b = None
                if b and b[0] == 'preall1':
                    b = None
                p = ref.window_params(0, s['rate'], f, o['fourier']['Nper'],
                                      o['fourier']['overlap']) if f > 0 else None
                if b and b[0] == 'win':
                    if p is None or any(
                            f2 != f and f2 > 0 and (lambda q: q is None or q[0] == p[0])(
                                ref.window_params(0, s['rate'], f2, o['fourier']['Nper'],
                                                  o['fourier']['overlap']))
                            for f2 in freqs):
                        b = None
                    else:
                        by_len[p[0]] = b
                eff.append(b)
                if b and b[0] in CALL_BAD:
                    bad[f] = b
            plan.bad[t], plan.now[t] = bad, None
            kw = mt.kwargs_for(o, weights=weights)
            kw['prefilter'] = Prefilter(plan, kw['prefilter'], None)
            if o['remote_weights'] is None:
                kw['remote_weights'] = None
            kw['fourier_opts']['window'] = window_fn(plan, o['fourier']['window'], {t: by_len})
            kw['silent_fail'] = op['silent']
            est = [b for b in eff if b and b[0] not in ('cal', 'win') + tuple(FREQ_BAD)]
            model_fail = any(not b and expected[repr(o), f][0] is None
                             for f, b in zip(freqs, eff) if (repr(o), f) in expected)
            arg = dict(list=list, tuple=tuple, array=np.array)[op['how']](freqs)
            out = ctx.attempt('estimation', lambda: rzb.utils.impedance(data, arg, **kw))
            plan.bad[t] = {}
            if not op['silent'] and (est or model_fail or any(
                    expected.get((repr(o), f), [0])[0] == 'ambiguous' for f in freqs)):
                continue
            if not out.ok:
                # without faults or with: an estimation reports failures as NaN
                ctx.fail('not-isolated', f'{out.describe()}: one frequency spoiled the estimation '
                         f'of {freqs}, planned failures {eff}')
            res = out.value
            nf = sum(1 for st, ow, kind, opk, rel in ctx.disk.fired
                     if ow == t and out.s0 <= st <= out.s1)
            if ctx.disk.window_between(out.s0, out.s1):
                nf = len(freqs)
            ne, nb, nr = s['ne'], s['nb'], s['nr'] if o['remote'] else 0
            F = len(freqs)
            for name, shape in (('impedance', (F, ne, nb)), ('error', (F, ne, nb)),
                                ('transfer_mag', (F, nb, nr))):
                if np.shape(getattr(res, name)) != shape:
                    ctx.fail('shape', f'{name} has shape {np.shape(getattr(res, name))}, expected {shape}')
            if len(res.invalid_time) != F:
                ctx.fail('shape', f'{len(res.invalid_time)} lists of rejected times for {F} frequencies')
            for i, (f, b) in enumerate(zip(freqs, eff)):
                what = f'frequency {i} ({f:g}) among {freqs}'
                if b:
                    mt.check_failed(ctx, res, i, f'{what}, planned failure {b}', s, o)
                    continue
                want, alone = expected[repr(o), f]
                if want == 'ambiguous':
                    ctx.probe('ambiguous')
                    continue
                if want is None:
                    mt.check_failed(ctx, res, i, what, s, o)
                    continue
                if np.isnan(res.impedance[i]).all():
                    if nf > 0:
                        nf -= 1
                        mt.check_failed(ctx, res, i, f'{what}, disk fault', s, o)
                        ctx.probe('nan by disk fault')
                        continue
                    ctx.fail('spurious-nan', f'{what}: NaN although nothing failed for it; '
                             f'planned failures {eff}')
                for name in ('impedance', 'error', 'transfer_mag'):
                    ctx.close(getattr(res, name)[i], getattr(alone, name)[0],
                              f'{what}: {name}', 1e-6, kind='disturbed')
                if len(res.invalid_time[i]) != ne:
                    ctx.fail('shape', f'{what}: {len(res.invalid_time[i])} lists of rejected times')
                for p, q in zip(res.invalid_time[i], alone.invalid_time[0]):
                    ctx.close(np.asarray(p, float), np.asarray(q, float), f'{what}: rejected times',
                              1e-12, 1e-9, 'disturbed')

    for c, ops in enumerate(w['clients']):
        ctx.client(f'client{c}', lambda c=c, ops=ops: client(c, ops))
    ctx.go()
    ctx.disk.heal_all()
    if ctx.disk.left_open():
        ctx.fail('leak', f'{ctx.disk.left_open()} left open')
