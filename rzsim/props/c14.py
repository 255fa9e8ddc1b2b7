""" C14: creating the local data path is idempotent, race-safe and crash-safe. """
import os

from .. import boot, disk, world
from ..core import InvalidWorkload

rzb = boot.rzb
cli = boot.rzb.cli.cli
ID = 'C14'
SHRINK = ['clients', 'clients.*', 'init']

TARGETS = {'base': 'data', 'metronix': 'data/metronix_calibration'}


class Killed(BaseException):
    """ the process of an invocation is gone """


def gen(rng, tier):
    clients = []
    for _ in range(rng.choice([1, 2, 2, 3, 4, 6])):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops.append([rng.choice(['metronix', 'metronix', 'base']), rng.random() < .8,
                        # killed before its k-th disk operation
                        rng.randrange(1, 25) if rng.random() < .2 else 0])
        clients.append(ops)
    init = []
    s = rng.random()
    if s < .4:
        pass
    elif s < .55:
        init = [['dir', 'data']]
    elif s < .7:
        init = [['dir', 'data'], ['dir', 'data/metronix_calibration'],
                ['file', 'data/metronix_calibration/Cal_MFS06.txt']]
    elif s < .8:
        init = [['dir', 'data'], ['file', 'data/keep.txt'], ['dir', 'data/other']]
    elif s < .86:
        init = [['link', 'data', 'store']]
    elif s < .9:
        init = [['dir', 'data'], ['link', 'data/metronix_calibration', 'store']]
    elif s < .94:
        init = [['dangle', 'data', 'later']]
    elif s < .97:
        init = [['file', 'data']]
    else:
        init = [['dir', 'data'], ['file', 'data/metronix_calibration']]
    return dict(clients=clients, init=init, again=rng.randint(1, 2),
                mode=rng.choice([0o755, 0o700, 0o770, 0o2775, 0o750]), pkg=rng.random() < .5,
                cwd=rng.choice(['w', 'w', 'w x/é', 'data/data', 'a/b/c']),
                sim=world.sim_opts(rng, workers=False),
                disk=world.disk_cfg(rng, ['eio', 'eacces', 'enospc', 'memerr'], p_none=.5))


def tree(top, modes=()):
    """ what is below top, with the modes of the directories named in `modes` (None: all) """
    out = {}
    for r, ds, fs in os.walk(top):
        for d in ds:
            p = os.path.join(r, d)
            out[os.path.relpath(p, top)] = 'link' if os.path.islink(p) else 'dir'
            if not os.path.islink(p) and (modes is None or os.path.relpath(p, top) in modes):
                out[os.path.relpath(p, top)] += oct(os.lstat(p).st_mode)
        for f in fs:
            p = os.path.join(r, f)
            if os.path.islink(p):
                out[os.path.relpath(p, top)] = 'link'
                continue
            with disk.REAL['open'](p, 'rb') as h:
                out[os.path.relpath(p, top)] = h.read()
    return out


def run(ctx):
    w = ctx.w
    if not w['clients']:
        raise InvalidWorkload
    ctx.disk.redirect.append((boot.PREFIX + 'data', ctx.path('pkg/data')))
    os.makedirs(ctx.path('pkg'))
    if w['pkg']:
        os.makedirs(ctx.path('pkg/data/metronix_calibration'))
    top = ctx.path(w['cwd'])
    os.makedirs(top)
    os.makedirs(ctx.path('store'))
    for what, rel, *more in w['init']:
        p = os.path.join(top, rel)
        if what == 'dir':
            os.mkdir(p)
            os.chmod(p, w['mode'])
        elif what == 'file':
            ctx.write(os.path.join(w['cwd'], rel), b'keep me')
        else:
            os.symlink(ctx.path(more[0]), p)
    os.chdir(top)
    before = tree(ctx.root, None)
    blocked = any(x[0] == 'file' and x[1] in TARGETS.values() for x in w['init'])
    kills = {}                  # owner -> disk operations left
    done = []                   # (target, create, outcome, output, killed, s0, s1)

    def on_op(kind, rel):
        me = ctx.sim.current
        left = kills.get(me.tid)
        if left is not None:
            if left <= 1:
                kills[me.tid] = 1
                ctx.probe('killed' if not getattr(me, 'dead', 0) else 'operations of the dead')
                me.dead = 1
                raise Killed
            kills[me.tid] = left - 1

    ctx.disk.on_op = on_op

    def isdir(rel):
        return REAL_isdir(os.path.join(top, rel))

    def invoke(target, create, kill):
        me = ctx.sim.current
        me.out.clear()
        me.dead = 0
        if kill:
            kills[me.tid] = kill
        was = REAL_isdir(os.path.join(top, TARGETS[target]))
        args = ['path'] + (['-c'] if create else []) + [target]
        o = ctx.attempt(' '.join(args), lambda: cli.main(args, prog_name='rzb', standalone_mode=False))
        kills.pop(me.tid, None)
        text = ''.join(me.out)
        killed = bool(me.dead)
        is_now = REAL_isdir(os.path.join(top, TARGETS[target]))
        if killed:
            done.append((target, create, None, text, o.s0, o.s1, was))
            return
        ctx.probe('invocations')
        done.append((target, create, o.ok, text, o.s0, o.s1, was))
        label = f'{" ".join(args)} ({text.strip()!r})'
        if create and o.ok:
            if not is_now:
                ctx.fail('not-there', f'{label} ends well, the directory does not exist')
            created, found = said(text)
            if created == found:
                ctx.fail('bad-report', f'{label} does not tell whether it created the path')
            if created and was:
                ctx.fail('wrong-report', f'{label} claims to have created an existing path')
        elif create:
            if not o.excused and not blocked:
                ctx.must_succeed(o, 'create-failed')
            if any(said(text)):
                ctx.fail('wrong-report', f'{label} fails but reports a success')
        elif o.ok:
            out = text.strip()
            got = ctx.disk.phys(out) or out
            base = TARGETS[target]
            states = {isdir(base), was, is_now}
            ok = set()
            if True in states:
                ok.add(os.path.join(top, base))
            if False in states:
                ok.add(ctx.path('pkg', base))
            if got not in ok:
                ctx.fail('wrong-path', f'{label}, expected one of {sorted(ok)}')
            if not o.excused and len(states) == 1:
                with ctx.quiet():
                    lib = ctx.attempt('library', lambda: rzb.data.data_path(
                        '' if target == 'base' else rzb.calibrations.METRONIX_DATA_PATH))
                now = REAL_isdir(os.path.join(top, base))
                if lib.ok and not lib.excused and now == is_now and str(lib.value) != out:
                    ctx.fail('wrong-path', f'{label}, the library uses {lib.value}')
        else:
            ctx.must_succeed(o)

    def client(ops):
        for op in ops:
            invoke(*op)

    for c, ops in enumerate(w['clients']):
        ctx.client(f'client{c}', lambda ops=ops: client(ops))
    ctx.go()

    # once the faults stopped the next invocation works, and says so
    ctx.disk.armed = False
    creators = [d for d in done if d[1]]
    for target in ('base', 'metronix'):
        calm = [d for d in creators if d[0] == target and d[2]]
        said_created = [d for d in calm if said(d[3])[0]]
        if len(said_created) > 1:
            ctx.fail('wrong-report', f'{len(said_created)} invocations claim to have created {target}')
        mine = [d for d in creators if d[0] == target]
        if mine and all(d[2] for d in mine) and not mine[0][6] and not said_created and (
                target == 'metronix' or not any(d[0] == 'metronix' for d in creators)):
            if not any(d[6] for d in mine):
                ctx.fail('wrong-report', f'{target}: nobody reports to have created it')
    after = tree(ctx.root, before)
    for k, v in before.items():
        if after.get(k) != v:
            ctx.fail('damage', f'{k} was {v!r}, it is now {after.get(k)!r}')
    allowed = set()
    for d in creators:
        rel = os.path.join(w['cwd'], TARGETS[d[0]])
        while rel:
            allowed.add(rel)
            rel = os.path.dirname(rel)
    for t in ('store', 'later'):
        allowed |= {t, t + '/metronix_calibration'} if creators else set()
    extra = sorted(set(after) - set(before) - allowed)
    if extra:
        ctx.fail('litter', f'created {extra}')
    final(ctx, w, top, blocked)


def final(ctx, w, top, blocked):
    ctx.disk.on_op = None
    box = []

    def body():
        me = ctx.sim.current
        for k in range(w['again']):
            for target in ('metronix', 'base'):
                me.out.clear()
                was = REAL_isdir(os.path.join(top, TARGETS[target]))
                o = ctx.attempt(f'next {target}', lambda: cli.main(
                    ['path', '--create', target], prog_name='rzb', standalone_mode=False))
                text = ''.join(me.out)
                if blocked:
                    if o.ok and not REAL_isdir(os.path.join(top, TARGETS[target])):
                        ctx.fail('not-there', f'{text.strip()!r}, the directory does not exist')
                    continue
                ctx.must_succeed(o, 'next-failed')
                if not REAL_isdir(os.path.join(top, TARGETS[target])):
                    ctx.fail('not-there', f'{text.strip()!r}, the directory does not exist')
                if said(text) != (not was, was):
                    ctx.fail('wrong-report', f'{text.strip()!r}, it was there: {was}')
        box.append(1)

    ctx.client('next', body)
    ctx.go()
    if not box:
        ctx.fail('no-progress', 'the next invocation does not end')


def said(text):
    last = text.strip().rsplit('\n', 1)[-1].lower()
    return last.endswith('created'), 'exist' in last.rsplit('/', 1)[-1]


def REAL_isdir(p):
    import stat
    try:
        return stat.S_ISDIR(disk.REAL['stat'](p).st_mode)
    except OSError:
        return False
