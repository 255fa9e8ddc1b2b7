""" C15: processing never writes to disk nor alters its inputs. """
import os
import sys

import numpy as np

from .. import boot, disk, mt, ref, survey, world
from ..core import InvalidWorkload
from ..survey import Refuse, Unknown
from .c07 import cal_files

rzb = boot.rzb
ID = 'C15'
SHRINK = ['clients', 'clients.*', 'sites', 'sites.*.runs']
KINDS = ['edit'] * 5 + ['load', 'loaddir', 'header', 'build', 'retag', 'invedit', 'invedit', 'invedit',
         'pack', 'groups', 'spectrum', 'imp', 'imp', 'mass', 'pvalues', 'pmass', 'fit', 'fit', 'error',
         'weight', 'filter', 'cod', 'metronix', 'metronix', 'phoenix', 'lookup', 'paths', 'windows',
         'show', 'read']


def gen(rng, tier):
    w = survey.gen_sites(rng, nsites=rng.choice([1, 2, 3]), max_runs=3)
    names = [n for s in w['sites'] for n in s['names'] if n]
    names += [g for s in w['sites'] for g in s['groups']] + ['nope']
    s = mt.gen_survey(rng, n=rng.choice([128, 200]), shapes=[(2, 2), (1, 2), (1, 1)])
    clients = []
    for _ in range(rng.choice([1, 1, 2])):
        ops = []
        for _ in range(rng.randint(3, 9)):
            k = rng.choice(KINDS)
            op = dict(k=k, i=rng.randrange(99), v=rng.randrange(1 << 20), bad=rng.random() < .2,
                      inject=rng.choice([[], [], [], [], ['MemoryError'], ['KeyboardInterrupt']]),
                      names=[rng.choice(names) for _ in range(rng.choice([1, 1, 2, 3]))])
            if k == 'edit':
                op['edit'] = survey.gen_op(rng, names)
            elif k == 'invedit':
                op['what'] = rng.choice(['filter', 'channels', 'cut', 'runs', 'add', 'copy', 'slice',
                                         'list', 'extend'])
                op['bounds'] = [survey.gen_bound(rng), survey.gen_bound(rng)]
            elif k in ('spectrum', 'imp', 'mass', 'pvalues', 'pmass'):
                o = mt.gen_opts(rng, s)
                o['fourier']['Nper'] = rng.choice([2, 3])
                if k == 'mass' and rng.random() < .8:
                    o['weights'] = 'ls'
                op['opts'] = o
                op['freqs'] = [mt.gen_freq(rng, s, o['fourier'], 10, 24)
                               for _ in range(rng.choice([1, 2]) if k == 'imp' else 1)]
                if op['bad']:
                    op['freqs'].append(s['rate'] * rng.choice([.8, 1e-9]))
                op['silent'] = rng.random() < .7
                op['default'] = rng.random() < .3
            elif k in ('fit', 'error', 'weight', 'filter', 'cod'):
                op['weights'] = mt.gen_weights(rng)
                op['ivid'] = rng.choice([None, 'one', 'each', 'empty'])
                op['init'] = rng.random() < .3
            ops.append(op)
        clients.append(ops)
    w.update(survey=s, clients=clients,
             sim=dict(world.sim_opts(rng), p_inject=rng.choice([.0003, .001, .01, .05])),
             disk=world.disk_cfg(rng, ['eio', 'eacces', 'emfile', 'enomem', 'memerr', 'cut', 'vanish',
                                       'part'], p_none=.4),
             cal=dict(seed=rng.randrange(1 << 20), rate=rng.choice([128., 4096.])),
             readonly=rng.random() < .5, chunk_size=rng.choice(['128MiB', '128MiB', '400B']))
    w['sim'].pop('opcodes', None)
    return w


# --------------------------------------------------------------- observation
class Watch:
    """ every attempt of the process to change the file system, whatever the way """

    EVENTS = {'os.mkdir', 'os.rename', 'os.remove', 'os.rmdir', 'os.link', 'os.symlink', 'os.truncate',
              'os.chmod', 'os.chown', 'os.utime', 'os.setxattr', 'os.removexattr', 'shutil.move',
              'shutil.rmtree', 'shutil.copyfile', 'subprocess.Popen', 'os.system', 'os.posix_spawn',
              'os.exec', 'tempfile.mkstemp', 'tempfile.mkdtemp', 'socket.connect', 'sqlite3.connect'}

    def __init__(self):
        self.on = False
        self.found = []
        sys.addaudithook(self)

    def __call__(self, event, args):
        if not self.on:
            return
        if event == 'open':
            path, mode, flags = args
            if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC
                                                   | os.O_APPEND):
                self.note(event, path)
        elif event in self.EVENTS:
            self.note(event, args[0] if args else '')

    def note(self, event, path):
        f = sys._getframe()
        while f is not None:        # not the environment's own doing (faults, healing)
            if f.f_code.co_filename == disk.__file__ and f.f_code.co_name in (
                    '_apply', '_heal', 'restore'):
                return
            f = f.f_back
        if not str(path).startswith('/dev/'):
            self.found.append((event, str(path)))


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds:
            out[os.path.relpath(os.path.join(d, n), root)] = 'dir'
        for n in fs:
            p = os.path.join(d, n)
            with disk.REAL['open'](p, 'rb') as f:
                out[os.path.relpath(p, root)] = (f.read(), os.stat(p).st_mode)
    return out


def deep(x):
    """ digest of anything handed in, with the content of option objects """
    if isinstance(x, (rzb.SignalSet, rzb.SyncSignal)):
        return survey.digest(x)
    if isinstance(x, rzb.Inventory):
        return survey.digest(x)
    if isinstance(x, rzb.Tags):
        return ('tags', tuple(x.items()), x.indices)
    if isinstance(x, rzb.weights.Weights):
        return ('weights', tuple(id(f) for f in x), repr(x))
    if isinstance(x, dict):
        return ('dict', tuple((k, deep(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(deep(v) for v in x))
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(sorted(map(repr, x))))
    if isinstance(x, np.ndarray):
        return survey.digest(x) + (x.flags.writeable, x.strides)
    if isinstance(x, rzb.prefilters.CoefficientOfDeterminationFilter):
        return ('cod', tuple(sorted(vars(x).items())))
    return survey.digest(x)


def run(ctx):
    w = ctx.w
    base = []
    for i in range(len(w['sites'])):
        if not w['sites'][i]['runs']:
            raise InvalidWorkload
        try:
            base.append(survey.build_site(ctx, w, i))
        except (Refuse, Unknown):
            raise InvalidWorkload
    if not w['clients']:
        raise InvalidWorkload
    s = w['survey']
    mtset = mt.build_survey(ctx, s, 'mt')
    files = [world.gen_ats_fixed(k) for k in range(3)]
    paths = [world.write_ats(ctx, f) for f in files]
    for n in range(3):
        world.write_ats(ctx, files[n], f'dir/siteA_{n}.ats')
    ctx.write('dir/notes.txt', b'x' * 40)
    p1, p2 = cal_files(ctx, w['cal'])
    os.chdir(ctx.root)
    arrays = [d for x, _ in base for sg in x.signals for d in sg.data if isinstance(d, np.ndarray)]
    if w['readonly']:
        for a in arrays:
            a.flags.writeable = False
    inv0 = rzb.Inventory(x for x, _ in base)
    mtinv = rzb.Inventory(mtset.select_channels(t) for t in mtset.tags)
    kept = [inv0, mtinv, mtset, arrays, [x for x, _ in base]]
    d0 = deep(kept)
    tree0 = tree(ctx.root)
    watch = Watch()

    def client(c, ops):
        pool = list(base)
        invs = [inv0, mtinv]
        for n, op in enumerate(ops):
            made = make(op, pool, invs, op['k'])
            if made is None:
                continue
            label, given, fn, model = made
            label = f'{label} (operation {n} of client {c})'
            with ctx.quiet():
                before = deep(given)
                pool_before = deep([x for x, _ in pool]), deep(invs)
            o = ctx.attempt(label, fn, op['inject'] or None)
            ctx.probe('calls that failed' if not o.ok else 'calls that returned')
            with ctx.quiet():
                check(label, given, before, pool, invs, pool_before)
                if not o.ok:
                    continue
                if isinstance(o.value, rzb.SignalSet) and o.value.nb_channels and op['k'] in (
                        'edit', 'build', 'pack'):
                    # results can be tagged, that is no business of their origin
                    o.value.tags['Zz%d' % n] = 0
                    ctx.probe('results retagged')
                    check(label + ', then tagging the result', given, before, pool, invs, pool_before)
                    del o.value.tags['Zz%d' % n]
                    if model is not None:
                        pool.append((o.value, model))
                elif isinstance(o.value, rzb.Inventory):
                    o.value.append(mtset)
                    ctx.probe('results extended')
                    check(label + ', then appending to the result', given, before, pool, invs,
                          pool_before)
                    if len(invs) < 6:
                        invs.append(rzb.Inventory(list(o.value)[:-1]))

    def check(label, given, before, pool, invs, pool_before):
        ctx.checks += 1
        if deep(given) != before:
            ctx.fail('modified', f'{label}: an argument was modified')
        if (deep([x for x, _ in pool]), deep(invs)) != pool_before or deep(kept) != d0:
            ctx.fail('modified', f'{label}: an object it was not given was modified')
        if ctx.disk.writes:
            ctx.fail('disk-write', f'{label}: {ctx.disk.writes[:3]}')
        if watch.found:
            ctx.fail('disk-write', f'{label}: {watch.found[:3]}')

    def make(op, pool, invs, k):
        """ (label, everything handed in, call, model of the result) """
        g = np.random.Generator(np.random.PCG64(op['v']))
        bad = op['bad']
        sset, m0 = pool[op['i'] % len(pool)]
        inv = invs[op['i'] % len(invs)]
        if k == 'edit':
            label, ins, fn, model = survey.prepare(op['edit'], pool)
            try:
                m = model()
            except (Refuse, Unknown):
                m = None
            return label, [pool[i][0] for i in ins], fn, m
        if k == 'load':
            names = list(paths) + (['missing.ats'] if bad else [])
            cals = [2., 3., (lambda f: f)] if op['v'] % 2 else None
            return 'load_ats', [names, cals], lambda: rzb.io.load_ats(names, cals), None
        if k == 'loaddir':
            cals = [1., 2., 3.][:2 if bad else 3]
            return 'load_ats_from', [cals], lambda: rzb.io.ats.load_ats_from('dir', cals), None
        if k == 'header':
            return 'read_ats_header', [], lambda: rzb.io.ats.read_ats_header(
                'dir' if bad else paths[0]), None
        if k == 'build':
            data = [g.normal(size=20) for _ in range(2)]
            for a in data:
                a.flags.writeable = not w['readonly']
            cals = [1.5, lambda f: 2 * f]
            tags = dict(A=[0], B=[1, 0] if not bad else [1, 7])
            if op['v'] % 3 == 0 and not bad:
                tags = rzb.Tags(2, **tags)
            return 'SignalSet', [data, cals, tags], lambda: rzb.SignalSet(
                tags, rzb.SyncSignal(data, 4., 10., cals)), None
        if k == 'retag':
            if not m0.tags:
                return None
            tags = {t: list(v) for t, v in list(sset.tags.items())[::-1]}
            return 'SignalSet of sets', [tags, sset], lambda: rzb.SignalSet(
                tags, *[sset][:1 + bad]), None
        if k == 'invedit':
            a, b = sorted(survey.bound(m0, x) for x in op['bounds'])
            names = tuple(op['names'])
            pats = tuple(n[:1] + '*' for n in names)
            runs = [list(range(x.nb_runs))[:1 + op['v'] % 2] for x in inv][:-1 if bad else None]
            members = list(inv)
            args = dict(filter=pats, channels=names, runs=runs, members=members)
            fn = dict(filter=lambda: inv.filter(*pats), channels=lambda: inv.select_channels(*names),
                      cut=lambda: inv.extract_t(a, b, bool(op['v'] % 2)),
                      runs=lambda: inv.select_runs(runs), add=lambda: inv + invs[op['v'] % len(invs)],
                      copy=lambda: rzb.Inventory(inv), list=lambda: rzb.Inventory(members),
                      extend=lambda: [x for x in [rzb.Inventory()] if not x.extend(members)][0],
                      slice=lambda: rzb.Inventory(inv[op['v'] % 2:]))[op['what']]
            return 'inventory ' + op['what'], [inv, args], fn, None
        if k == 'pack':
            return 'pack', [inv], lambda: inv.pack(bool(op['v'] % 3)), None
        if k == 'groups':
            tags = sorted(mtinv.tags)
            groups = [('One', tags[:1]), ('Two', tags[::-1])] + [('Three', ['nope'])] * bad
            return 'extract_groups', [mtinv, groups], lambda: mtinv.extract_groups(groups), None
        if k == 'spectrum':
            o = op['opts']['fourier']
            f = op['freqs'][-1]
            win = mt.make_window(o['window'])
            if win is not None and op['v'] % 2:
                L = int(np.ceil(o['Nper'] / (f / s['rate'])))
                if not 0 < L < 10000:
                    return None
                win = np.hanning(L)
            return 'fourier_coefficients', [mtset, win], lambda: mtset.fourier_coefficients(
                f, o['Nper'], o['overlap'], win, compute=op['v'] % 3 != 0), None
        if k == 'imp':
            kw = mt.kwargs_for(op['opts'])
            if op['default']:
                kw['weights'] = rzb.weights.mest_weights
                kw['fourier_opts'].pop('window')
            freqs = list(op['freqs'])
            return 'impedance', [mtset, freqs, kw], lambda: rzb.utils.impedance(
                mtset, freqs, silent_fail=op['silent'], **kw), None
        if k in ('mass', 'pmass'):
            kw = mt.kwargs_for(op['opts'])
            kw.pop('remote')
            freqs, names = list(op['freqs']), ['R'] if s['nr'] else []
            if bad and op['v'] % 2:
                names.append('nope')
            t0, m = s['runs'][0]
            ivs = [(-1e12, 1e12), (t0 + 3, t0 + .7 * m / s['rate'])][:1 + op['v'] % 2]
            if k == 'mass':
                return 'impedance_mass_proc', [mtinv, names, freqs, ivs, kw], \
                    lambda: rzb.utils.impedance_mass_proc(mtinv, names, freqs, ivs, kw,
                                                          op['v'] % 3 != 0), None
            pre = mt.make_prefilter(['cod', .3])
            return 'prefilter_values_mass_proc', [mtset, names, freqs, ivs, pre], \
                lambda: rzb.utils.prefilter_values_mass_proc(mtset, names, freqs, ivs, pre), None
        if k == 'pvalues':
            fo = mt.kwargs_for(op['opts'])['fourier_opts']
            pre = mt.make_prefilter(['cod', .3])
            freqs = list(op['freqs'])
            return 'prefilter_values', [mtset, freqs, fo, pre], lambda: rzb.utils.prefilter_values(
                mtset, freqs, pre, fo), None
        if k in ('fit', 'error', 'weight', 'filter', 'cod'):
            N, q, p = 40, 2, 1 + op['v'] % 2
            b = g.normal(size=(q, N)) + 1j * g.normal(size=(q, N))
            z = g.normal(size=(p, q)) + 1j * g.normal(size=(p, q))
            e = z @ b + .1 * g.normal(size=(p, N))
            e[0, 3] += 50
            if bad:
                b[1] = b[0]
            one = np.array([[1, 5], [5, 1], [7, 2, 5]][op['v'] % 3], dtype=int)
            ivid = {None: None, 'one': one, 'each': [one, one + 2][:p], 'empty': []}[op['ivid']]
            init = [z[i].copy() for i in range(p)] if op['init'] else None
            wt = mt.make_weights(op['weights'])
            for a in [b, e, one, z]:
                a.flags.writeable = not w['readonly']
            lists = op['v'] % 3 == 0
            E, B = (list(e), list(b)) if lists else (e, b)
            if k == 'fit':
                opts = dict(tol=1e-3)
                return 'transfer_function', [E, B, wt, init, ivid, opts], lambda: \
                    rzb.mestimator.transfer_function(E, B, wt, init, ivid, **opts), None
            if k == 'error':
                iv = [one] * p
                return 'transfer_error', [E, B, z, iv], lambda: rzb.mestimator.transfer_error(
                    E, B, z, iv), None
            if k == 'filter':
                pre = mt.make_prefilter(['cod', .9])
                return 'apply_prefilter', [E, B, pre, ivid], lambda: rzb.utils.apply_prefilter(
                    E, B, pre, ivid), None
            if k == 'cod':
                pre = mt.make_prefilter(['cod', .9])
                bt = b.T
                return 'coefficient of determination', [e, bt, pre], lambda: (
                    pre(e[0], bt), pre.value(e[0], bt)), None
            fs = [f for f in wt if f is not None]
            if not fs:
                return None
            f = fs[op['i'] % len(fs)]
            bt, res = b.T, e[0] - b.T @ z[0]
            for a in (res,):
                a.flags.writeable = not w['readonly']
            return f'weight {f}', [res, e[0], bt, one], lambda: f(0, res, e[0], bt, one), None
        if k == 'metronix':
            amap = {'MFS06': 4.0, 'MFS07': 32.0}
            rate = [128., 4096.][op['v'] % 2]
            name = 'nothing.txt' if bad else ['MFS06_1.txt', p1][op['v'] // 2 % 2]
            return 'metronix', [amap], lambda: rzb.calibrations.metronix(
                name, rate, alpha_map=amap)(20.), None
        if k == 'phoenix':
            return 'phoenix', [], lambda: rzb.calibrations.phoenix(p2, 9 if bad else 2), None
        if k == 'lookup':
            return 'data files', [], lambda: (
                rzb.data.data_path('metronix_calibration'), rzb.data.local_data_path('x'),
                rzb.data.get_data_file('zz' if bad else 'MFS06_1.txt', 'metronix_calibration')), None
        if k == 'paths':
            names = ['dir/siteA_0.ats', 'dir/siteA_1.ats', 'dir/notes.txt', 'x/y']
            tpls = ['{site}_{n}', 'S{site}' if not bad else '{other}']
            return 'tags_from_path', [names, tpls], lambda: [
                rzb.SignalSet({tags[0]: 0}, rzb.io.load_ats([n]))
                for n, tags in rzb.utils.tags_from_path(names, 'dir/site{site}_{n}.ats', *tpls)], None
        if k == 'windows':
            y = [np.asarray(g.normal(size=300)) for _ in range(2)]
            for a in y:
                a.flags.writeable = not w['readonly']
            win = np.hanning(30)
            return 'time_to_freq', [y, win], lambda: rzb.fourier_transform.time_to_freq(
                y, 100., 10. if not bad else 60., 3, .5, win), None
        if k == 'show':
            return 'show', [sset, inv], lambda: (
                str(sset), repr(sset), repr(inv), [str(x) for x in sset.signals], repr(sset.tags),
                str(sset.tags), sset.tags.filter('*'), list(inv.starts), inv.tags, sset.sizes), None
        if k == 'read':
            return 'read', [sset], lambda: [boot.dask.compute(*x.data) for x in sset.signals], None
        raise KeyError(k)

    for c, ops in enumerate(w['clients']):
        ctx.client(f'client{c}', lambda c=c, ops=ops: client(c, ops))
    watch.on = True
    ctx.go()
    watch.on = False
    ctx.disk.heal_all()
    ctx.disk.armed = False
    if ctx.disk.left_open():
        ctx.fail('leak', f'{ctx.disk.left_open()} left open')
    now = tree(ctx.root)
    if now != tree0:
        diff = sorted(set(now) ^ set(tree0)) or [p for p in now if now[p] != tree0[p]]
        ctx.fail('disk-write', f'the file system changed: {diff[:5]}')
    if deep(kept) != d0:
        ctx.fail('modified', 'an input is not what it was')
    for k, (x, m) in enumerate(base):
        survey.check_meta(ctx, x, m, f'site {k} at the end', 'modified')
        survey.check_data(ctx, x, m, f'site {k} at the end', 'modified')
