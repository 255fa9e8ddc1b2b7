""" C13: data files resolve to the local copy first, then the packaged one. """
import os
import pathlib

from .. import boot, disk, ref, world
from ..core import InvalidWorkload

rzb = boot.rzb
ID = 'C13'
SHRINK = ['clients', 'clients.*', 'env', 'init']

DIRS = ['w0', 'w1', 'w0/in ner']
TARGETS = ['metronix_calibration', '', 'other', 'a/b']
FILES = ['Cal_MFS06.txt', 'x.dat', 'sub/y.dat', 'é.txt']
# entries of the environment: <place>/data/<target>/<file>, place in DIRS or 'pkg'


def gen_event(rng, many):
    k = rng.choice(['put', 'put', 'drop', 'drop', 'rmdir', 'mvdir', 'mkdir', 'asfile', 'dangle']
                   + ['chdir', 'chdir'])
    place = rng.choice(DIRS + ['pkg', 'w0'])
    return [k, place, rng.choice(TARGETS[:2] + TARGETS), rng.choice(FILES[:2] + FILES)]


def gen(rng, tier):
    w = gen_any(rng)
    if rng.random() < .6:
        # everything is about one name: it exists here, there, or in both
        target, name = rng.choice(TARGETS), rng.choice(FILES)
        for ev in w['init'] + w['env'] + [o[1] for c in w['clients'] for o in c if o[0] == 'env']:
            ev[2:] = [target, name]
        for o in [o for c in w['clients'] for o in c if o[0] != 'env']:
            o[1:3] = [target, name]
        for place in ('pkg', 'pkg', w['start']):
            if rng.random() < .6:
                w['init'].append(['put', place, target, name])
        if rng.random() < .4:       # files of similar names
            other = rng.choice([name.swapcase(), name.lower(), name + '.bak', name + ' ', '~' + name,
                                name.rpartition('.')[0], '.' + name])
            for place in ('pkg', w['start']):
                if rng.random() < .6:
                    w['init'].append(['put', place, target, other])
    return w


def gen_any(rng):
    clients = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randint(1, 7)):
            k = rng.choice(['file', 'file', 'file', 'path', 'default', 'local', 'metronix', 'env'])
            if k == 'env':
                ops.append(['env', gen_event(rng, False)])
            else:
                ops.append([k, rng.choice(TARGETS[:1] + TARGETS), rng.choice(FILES[:2] + FILES),
                            rng.choice(['str', 'str', 'Path', 'abs'])])
        clients.append(ops)
    return dict(init=[gen_event(rng, False) for _ in range(rng.randint(0, 10))],
                env=[gen_event(rng, True) for _ in range(rng.choice([0, 0, 2, 5]))],
                clients=clients, sim=world.sim_opts(rng, workers=False),
                links=rng.random() < .3, start=rng.choice(DIRS),
                disk=world.disk_cfg(rng, ['eio', 'eacces', 'memerr'], p_none=.5))


class Env:
    """ the tree below each place and the working directory, with its history """

    def __init__(self, ctx, w):
        self.ctx = ctx
        self.n = 0
        self.links = w['links']
        self.tree = {p: {} for p in DIRS + ['pkg']}     # relative path -> 'dir' | 'file' | 'dangle'
        for p in self.tree:
            os.makedirs(ctx.path(p))
            if self.links:
                # the data directory is a link to somewhere else
                store = 'store-' + p.replace('/', '-')
                os.makedirs(ctx.path(store))
                os.symlink(ctx.path(store), ctx.path(p, 'data'))
                self.tree[p]['data'] = 'dir'
        self.cwd = w['start']
        os.chdir(ctx.path(self.cwd))
        self.history = [(-1, self.state())]

    def state(self):
        return self.cwd, {p: dict(t) for p, t in self.tree.items()}

    def phys(self, place, rel):
        return self.ctx.path(place, rel)

    def event(self, ev):
        kind, place, target, name = ev
        t = self.tree[place]
        d = '/'.join(x for x in ['data', target] if x)
        f = d + '/' + name
        if kind == 'chdir':
            if place == 'pkg':
                return
            self.cwd = place
            os.chdir(self.ctx.path(place))
        elif kind in ('put', 'mkdir', 'dangle'):
            parent = d if kind == 'mkdir' else os.path.dirname(f)
            parts = parent.split('/')
            ups = ['/'.join(parts[:i + 1]) for i in range(len(parts))]
            if any(t.get(u, 'dir') != 'dir' for u in ups) or kind != 'mkdir' and t.get(f) == 'dir':
                return
            for u in ups:
                if u not in t:
                    disk.REAL['mkdir'](self.phys(place, u))
                    t[u] = 'dir'
            if kind == 'put':
                if t.get(f) == 'dangle':
                    disk.REAL['unlink'](self.phys(place, f))
                self.n += 1
                with disk.REAL['open'](self.phys(place, f), 'wb') as h:
                    h.write(ref.metronix_text([(1., 1., float(self.n)), (100., 1., 2.)],
                                              [(1., 2., 1.), (100., 2., 2.)]).encode())
                t[f] = 'file'
            elif kind == 'dangle':
                if t.get(f) == 'file':
                    disk.REAL['unlink'](self.phys(place, f))
                if t.get(f) != 'dangle':
                    os.symlink(self.ctx.path('nowhere'), self.phys(place, f))
                t[f] = 'dangle'
        elif kind == 'drop':
            if t.get(f) in ('file', 'dangle'):
                disk.REAL['unlink'](self.phys(place, f))
                del t[f]
        elif kind in ('rmdir', 'mvdir', 'asfile'):
            # the whole directory leaves at once
            if t.get(d) != 'dir' or d == 'data' and self.links:
                return
            self.n += 1
            disk.REAL['rename'](self.phys(place, d), self.ctx.path(f'gone{self.n}'))
            for k in [k for k in t if k == d or k.startswith(d + '/')]:
                del t[k]
            if kind == 'asfile':
                with disk.REAL['open'](self.phys(place, d), 'wb') as h:
                    h.write(b'not a directory')
                t[d] = 'file'
        self.history.append((self.ctx.sim.step, self.state()))

    def during(self, first, s1):
        return [s for k, (t, s) in enumerate(self.history) if k >= first and t <= s1]


def answer(state, kind, target, name):
    """ (place, relative path) or None for an error """
    cwd, tree = state
    d = '/'.join(x for x in ['data', target] if x)
    if kind == 'path':
        return (cwd if tree[cwd].get(d) == 'dir' else 'pkg'), d
    if kind == 'default':
        return 'pkg', d
    if kind == 'local':
        return cwd, d
    f = d + '/' + name
    for place in (cwd, 'pkg'):
        if tree[place].get(d) == 'dir' and tree[place].get(f) == 'file':
            return place, f
    return None


def where(ctx, env, path):
    """ (place, relative path) of a returned path """
    p = os.fspath(path)
    if not p.startswith('/'):
        ctx.fail('relative', f'{p!r} depends on the working directory')
    p = ctx.disk.phys(p) or p
    for place in sorted(env.tree, key=len, reverse=True):
        for base in [ctx.path(place) + '/'] + (
                [ctx.path('store-' + place.replace('/', '-')) + '/'] if env.links else []):
            if p.startswith(base):
                rel = p[len(base):]
                return place, ('data/' + rel if 'store-' in base[len(ctx.root):] else rel)
            if env.links and p == base[:-1] and 'store-' in base[len(ctx.root):]:
                return place, 'data'
    ctx.fail('elsewhere', f'{p!r} is in no data directory')


def run(ctx):
    w = ctx.w
    ctx.disk.redirect.append((boot.PREFIX + 'data', ctx.path('pkg/data')))
    env = Env(ctx, w)
    for ev in w['init']:
        env.event(ev)
    rdata = rzb.data

    def look(op):
        kind, target, name, how = op
        label = f'{kind} {target!r} {name!r}'
        first = len(env.history) - 1
        fname = pathlib.Path(name) if how == 'Path' else name
        if how == 'abs' and kind in ('file', 'metronix'):
            # an absolute path leads to itself
            place = sorted(env.tree)[len(name) % len(env.tree)]
            d = '/'.join(x for x in ['data', target] if x)
            fname = ctx.path(place, d, name)
            label += f' absolute in {place}'
        if kind == 'metronix':
            target = 'metronix_calibration'
            if how == 'abs':
                fname = ctx.path(place, 'data', target, name)
        fn = dict(file=lambda: rdata.get_data_file(fname, target),
                  path=lambda: rdata.data_path(target),
                  default=lambda: rdata.default_data_path(target),
                  local=lambda: rdata.local_data_path(target),
                  metronix=lambda: rzb.calibrations.metronix(fname, 100., None, r'.*()', {'': 4.}))[kind]
        o = ctx.attempt(label, fn)
        states = env.during(first, o.s1)
        if how == 'abs' and kind in ('file', 'metronix'):
            d = '/'.join(x for x in ['data', target] if x)
            want = [(place, f'{d}/{name}') if s[1][place].get(d) == 'dir'
                    and s[1][place].get(f'{d}/{name}') == 'file' else None for s in states]
        else:
            want = [answer(s, kind, target, name) for s in states]
        ctx.probe('look-ups')
        if len(set(want)) > 1:
            ctx.probe('look-ups during a change')
        if kind == 'metronix':
            if o.ok and not any(want):
                ctx.fail('found-nothing', f'{label} loads, no such file')
            if not o.ok and all(want) and len(states) == 1:
                ctx.must_succeed(o)
            return
        if not o.ok:
            if not isinstance(o.error, (ValueError, OSError, MemoryError)):
                ctx.fail('bad-error', o.describe())
            if isinstance(o.error, ValueError) and isinstance(o.error, UnicodeError):
                ctx.fail('bad-error', o.describe())
            if not o.excused:
                if not any(x is None for x in want):
                    if len(states) <= 2:
                        ctx.fail('not-found', f'{o.describe()}, expected {want}')
                elif not isinstance(o.error, ValueError) or name not in str(o.error):
                    ctx.fail('unclear-error', o.describe())
            return
        got = where(ctx, env, o.value)
        ctx.checks += 1
        if got in want:
            return
        # several changes in one call: each look at the disk may see another state
        if len(states) > 2:
            if got in [x for x in want_any(states, kind, target, name) if x]:
                ctx.probe('look-ups during several changes')
                return
        ctx.fail('wrong-answer', f'{label} gave {got} in {states[0][0]}, expected {want}')

    def client(ops):
        for op in ops:
            if op[0] == 'env':
                env.event(op[1])
            else:
                look(op)

    for c, ops in enumerate(w['clients']):
        ctx.client(f'client{c}', lambda ops=ops: client(ops))
    if w['env']:
        def environment():
            for ev in w['env']:
                ctx.sim.pause('environment')
                env.event(ev)
        ctx.client('environment', environment)
    ctx.go()
    if ctx.disk.writes:
        ctx.fail('writes', f'{ctx.disk.writes[:3]}')


def want_any(states, kind, target, name):
    out = set()
    for cwd, _ in states:
        for _, tree in states:
            out.add(answer((cwd, tree), kind, target, name))
    return out
