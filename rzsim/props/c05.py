""" C05: concurrent estimations equal isolated ones. """
import numpy as np

from .. import boot, mt, ref, world
from ..core import InvalidWorkload

rzb = boot.rzb
ID = 'C05'
SHRINK = ['clients', 'clients.*', 'clients.*.*.freqs']
ERR = ['ignore', 'warn']


def gen(rng, tier):
    surveys = [mt.gen_survey(rng, n=20000 if rng.random() < .05 else rng.choice([200, 300])) for _ in range(rng.choice([1, 1, 2]))]
    pool = [mt.gen_weights(rng) for _ in range(rng.choice([1, 1, 2]))]
    filters = [rng.choice([['cod', .2], ['cod', .5], ['cod', .9], ['cod', .2, .97]])
               for _ in range(rng.choice([1, 1, 2]))]
    windows = [rng.choice([['slepian', 4], ['slepian', 1.2], ['slepian', 2]])
               for _ in range(rng.choice([1, 1, 2]))]
    same = rng.random() < .5
    direct = rng.choice([0, .3, .3, .3, 1])
    nclients = rng.choice([2, 2, 3, 4])
    clients = []
    nfits = rng.choice([[1], [1, 2]])
    for c in range(nclients):
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.randrange(len(surveys))
            s = surveys[i]
            o = mt.gen_opts(rng, s)
            o['weights'] = rng.choice(pool)
            if o['remote'] and rng.random() < .7:
                o['remote_weights'] = rng.choice([None] + pool)
            if same:
                o['prefilter'] = rng.choice(filters)
                o['fourier']['window'] = rng.choice(windows)
            if rng.random() < direct:   # the shared objects called directly
                for _ in range(rng.randint(1, 3) + 3 * (direct == 1)):
                    ops.append(rng.choice([
                        dict(k='pf', spec=rng.choice(filters), seed=rng.randrange(1 << 30), p=1, out=rng.choice([2, 4]),
                             n=rng.choice([30, 64, 75, 101]), q=rng.choice([1, 2])),
                        dict(k='win', spec=rng.choice(windows), n=rng.choice([9, 12, 16, 33, 64]))]))
            elif rng.random() < 0.5:
                freqs = [mt.gen_freq(rng, s, o['fourier']) for _ in range(rng.choice(nfits))]
                ops.append(dict(k='imp', survey=i, opts=o, freqs=freqs,
                                share=rng.random() < .85))
            else:
                ops.append(dict(k='tf', seed=rng.randrange(1 << 30), n=rng.choice([30, 60, 100]),
                                p=rng.choice([1, 2]), q=rng.choice([1, 2, 2]), weights=o['weights'],
                                out=rng.choice([0, 1, 3]), share=rng.random() < .85,
                                opts=o['mest'], iv=rng.random() < .3))
        clients.append(ops)
    sim = world.sim_opts(rng)
    if sim.get('p_switch', 0) == 0:
        sim['p_switch'] = 0.1
    return dict(surveys=surveys, clients=clients, sim=sim, share_sets=rng.random() < .7,
                err=[rng.randrange(1 << 6) for _ in range(nclients)], disk={},
                chunk_size=rng.choice(['128MiB', '128MiB', '128MiB', '1000B', '400B']))


def tf_data(op):
    g = np.random.Generator(np.random.PCG64(op['seed']))
    n = op['n']
    b = g.normal(size=(op['q'], n)) + 1j * g.normal(size=(op['q'], n))
    z = g.normal(size=(op['p'], op['q'])) + 1j * g.normal(size=(op['p'], op['q']))
    e = z @ b + 0.1 * (g.normal(size=(op['p'], n)) + 1j * g.normal(size=(op['p'], n)))
    for _ in range(op['out']):
        e[:, int(g.integers(0, n))] += 50
    return e, b


def run_tf(op, e, b, weights):
    kw = {}
    if op['iv']:
        kw['invalid_idx'] = [np.array([0, 5, 7])] * op['p']
    return rzb.mestimator.transfer_function(list(e), list(b), weights, **kw, **op['opts'])


def run(ctx):
    w = ctx.w
    sets = [mt.build_survey(ctx, s, f's{i}') for i, s in enumerate(w['surveys'])]
    arrs = [mt.survey_arrays(s) for s in w['surveys']]
    # what each operation gives when run alone, with its own objects
    expected = {}
    for c, ops in enumerate(w['clients']):
        for k, op in enumerate(ops):
            key = (c, k)
            if op['k'] == 'pf':
                e, b = tf_data(op)
                expected[key] = mt.make_prefilter(op['spec'])(e[0], b.T)
                try:
                    def filt(chans, op=op):
                        i = mt.ref_prefilter(op['spec'])(chans[0], np.array(chans[1:]).T)
                        return [], [i], i
                    want = ref.stable(filt, [e[0], *b], 1e-5)
                except (ref.Ambiguous, ref.Fail):
                    expected[key] = None
                    continue
                ctx.equal(expected[key], want, 'isolated filter against the model', 'differs-from-model')
            elif op['k'] == 'win':
                expected[key] = mt.make_window(op['spec'])(op['n'])
                ctx.close(expected[key], ref.make_window(op['spec'], op['n']), 'isolated window', 1e-12,
                          kind='differs-from-model')
            elif op['k'] == 'tf':
                e, b = tf_data(op)
                try:
                    def one(chans, op=op):
                        Z, IV = ref.transfer(
                            chans[:op['p']], chans[op['p']:], mt.ref_weights(op['weights']),
                            [np.array([0, 5, 7])] * op['p'] if op['iv'] else None, **op['opts'])
                        return [Z], IV, (Z, IV)
                    Z, IV = ref.stable(one, list(e) + list(b), 1e-5)
                except (ref.Fail, ref.Ambiguous, np.linalg.LinAlgError):
                    expected[key] = None
                    continue
                expected[key] = run_tf(op, e, b, mt.fresh_weights(op['weights']))
                ctx.close(expected[key][0], Z, 'isolated fit against the model', 1e-5,
                          kind='differs-from-model')
                for p, q in zip(expected[key][1], IV):
                    ctx.equal(p, q, 'isolated fit, rejected indices', 'differs-from-model')
            else:
                s, o = w['surveys'][op['survey']], op['opts']
                if not op['freqs']:
                    raise InvalidWorkload
                want = mt.ref_impedance(s, o, op['freqs'], arrs[op['survey']])
                if 'ambiguous' in want:
                    ctx.probe('ambiguous')
                    continue
                res = rzb.utils.impedance(sets[op['survey']], op['freqs'], **mt.kwargs_for(o))
                expected[key] = res
                mt.compare_ref(ctx, res, want, s, o, 'isolated estimation')
    shared = {}

    def obj(kind, spec, make):
        """ the instance shared by all clients """
        key = (kind, repr(spec))
        if key not in shared:
            shared[key] = make(spec)
        return shared[key]

    for ops in w['clients']:        # built before the clients run
        for op in ops:
            if op['k'] == 'pf':
                obj('p', op['spec'], mt.make_prefilter)
            elif op['k'] == 'win':
                obj('win', op['spec'], mt.make_window)
            elif op['k'] == 'tf':
                obj('w', op['weights'], mt.make_weights)
            else:
                for spec in (op['opts']['weights'], op['opts']['remote_weights']):
                    obj('w', spec, mt.make_weights)
                obj('p', op['opts']['prefilter'], mt.make_prefilter)
                obj('win', op['opts']['fourier']['window'], mt.make_window)
    own = [[mt.build_survey(ctx, dict(s, store='memory'), 'x') for s in w['surveys']]
           if not w['share_sets'] else None for _ in w['clients']]

    def client(c, ops):
        bits = w['err'][c % len(w['err'])]
        np.seterr(divide=ERR[bits & 1], over=ERR[bits >> 1 & 1], invalid=ERR[bits >> 2 & 1],
                  under=ERR[bits >> 3 & 1])
        err0 = np.geterr()
        for k, op in enumerate(ops):
            want = expected.get((c, k))
            if op['k'] == 'pf':
                e, b = tf_data(op)
                o = ctx.attempt('filter', lambda: obj('p', op['spec'], None)(e[0], b.T))
                if want is not None:
                    ctx.must_succeed(o)
                    ctx.equal(o.value, want, 'filter called concurrently', 'interference')
            elif op['k'] == 'win':
                o = ctx.attempt('window', lambda: obj('win', op['spec'], None)(op['n']))
                ctx.must_succeed(o)
                ctx.close(o.value, want, 'window called concurrently', 1e-12, kind='interference')
            elif op['k'] == 'tf':
                e, b = tf_data(op)
                wt = obj('w', op['weights'], None) if op['share'] else mt.fresh_weights(op['weights'])
                o = ctx.attempt('fit', lambda: run_tf(op, e, b, wt))
                if want is None:    # the answer hangs on rounding, or a failure
                    continue
                ctx.must_succeed(o)
                ctx.close(o.value[0], want[0], 'concurrent fit', 1e-6, kind='interference')
                for p, q in zip(o.value[1], want[1]):
                    ctx.equal(p, q, 'concurrent fit, rejected indices', 'interference')
            else:
                s, oo = w['surveys'][op['survey']], op['opts']
                kw = mt.kwargs_for(oo)
                if op['share']:
                    kw['weights'] = obj('w', oo['weights'], None)
                    kw['remote_weights'] = obj('w', oo['remote_weights'], None)
                    kw['prefilter'] = obj('p', oo['prefilter'], None)
                    kw['fourier_opts']['window'] = obj('win', oo['fourier']['window'], None)
                data = (own[c] or sets)[op['survey']]
                o = ctx.attempt('estimation', lambda: rzb.utils.impedance(
                    data, op['freqs'], **kw))
                ctx.must_succeed(o)
                if want is not None:
                    mt.compare(ctx, o.value, want, s, oo, 'concurrent estimation', 1e-6, 'interference')
            if np.geterr() != err0:
                ctx.fail('errstate', f'float error handling was {err0}, is {np.geterr()} after {op["k"]}')

    for c, ops in enumerate(w['clients']):
        ctx.client(f'client{c}', lambda c=c, ops=ops: client(c, ops))
    ctx.go()
