""" dask scheduler under the control of the simulator.

`get` has the signature of a dask scheduler.  It runs the real task graph (real
dask tasks, real razorback and numpy code) on simulated worker threads: which
ready task a worker takes, and how the workers interleave, is decided by the
simulator.  Task order is derived from the structure of the graph only, never
from token names, sets or hashes.
"""
import pickle
from collections.abc import Mapping

import cloudpickle
import dask
from dask import core as dcore
from dask._task_spec import Alias, DataNode, GraphNode, TaskRef, convert_legacy_graph

from .core import SimAbort, current_sim


def _refs(obj, out, deps):
    """ dependencies of a task in order of appearance in its arguments """
    if isinstance(obj, TaskRef):
        if obj.key in deps:
            out.setdefault(obj.key)
    elif isinstance(obj, Alias):
        out.setdefault(obj.target)
    elif isinstance(obj, DataNode):
        pass
    elif isinstance(obj, GraphNode):
        for a in getattr(obj, 'args', ()):
            _refs(a, out, deps)
        kw = getattr(obj, 'kwargs', None)
        if kw:
            for k in sorted(kw, key=str):
                _refs(kw[k], out, deps)
    elif isinstance(obj, (list, tuple)):
        for a in obj:
            _refs(a, out, deps)
    elif isinstance(obj, dict):
        for k, v in obj.items():
            _refs(v, out, deps)


def _flatten(keys):
    if isinstance(keys, list):
        for k in keys:
            yield from _flatten(k)
    else:
        yield keys


def _plan(graph, keys):
    """ [(key, node, deps)] in a structural depth-first order """
    order, index, out = [], {}, []
    deps_of = {}

    def deps(key):
        if key not in deps_of:
            node = graph[key]
            want = node.dependencies
            d = {}
            _refs(node, d, want)
            lst = [k for k in d if k in want]
            lst += sorted((k for k in want if k not in d), key=str)
            deps_of[key] = lst
        return deps_of[key]

    for root in keys:
        if root in index:
            continue
        stack = [(root, 0)]
        while stack:
            key, i = stack.pop()
            if key in index:
                continue
            dl = deps(key)
            while i < len(dl) and dl[i] in index:
                i += 1
            if i < len(dl):
                stack.append((key, i + 1))
                stack.append((dl[i], 0))
            else:
                index[key] = len(order)
                order.append(key)
    for key in order:
        out.append((graph[key], [index[d] for d in deps_of[key]]))
    return order, index, out


class _Job:
    """ one compute() call """

    def __init__(self, sim, order, nodes):
        self.sim, self.order, self.nodes = sim, order, nodes
        n = len(nodes)
        self.cache = {}
        self.ready = []
        self.left = [len(d) for _, d in nodes]
        self.users = [[] for _ in range(n)]
        for i, (_, dl) in enumerate(nodes):
            for d in dl:
                self.users[d].append(i)
        self.ready = [i for i in range(n) if not self.left[i]]
        self.running = 0
        self.done = 0
        self.error = None
        self.live = 0

    def finished(self):
        return self.error is not None or self.done == len(self.nodes)

    def take(self):
        sim = self.sim
        sim.ntask += 1
        k = 0
        if len(self.ready) > 1:
            n = len(self.ready)
            k = sim.d.decide('task', sim.ntask, 0, lambda r: (
                r.randrange(n) if r.random() < sim.o.p_task else 0)) % n
        return self.ready.pop(k)

    def work(self):
        sim = self.sim
        while True:
            if self.finished():
                return
            if not self.ready:
                sim.block_until(lambda: self.ready or self.finished(), 'dask.wait')
                continue
            i = self.take()
            self.running += 1
            try:
                sim.event('task', i)
                sim.sched_hash.update(b't%d' % i)
                node, deps = self.nodes[i]
                args = {self.order[d]: self.cache[d] for d in deps}
                if sim.o.ship:      # as a scheduler of processes does
                    node, args = travel((node, args))
                res = node(args)
                if sim.o.ship:
                    res = travel(res)
            except SimAbort:
                raise
            except BaseException as e:      # noqa
                if self.error is None:
                    self.error = e
                sim.rearm()
                return
            finally:
                self.running -= 1
            self.cache[i] = res
            self.done += 1
            for u in self.users[i]:
                self.left[u] -= 1
                if not self.left[u]:
                    self.ready.append(u)
            sim.yield_point('dask.task')

    def worker(self):
        try:
            self.work()
        finally:
            self.live -= 1


def travel(x):
    return pickle.loads(cloudpickle.dumps(x))


def _graph_of(dsk):
    if not isinstance(dsk, Mapping):
        dsk = dsk.__dask_graph__()
    return convert_legacy_graph(dict(dsk))


def get(dsk, keys, **kwds):
    flat = list(_flatten(keys))
    order, index, nodes = _plan(_graph_of(dsk), flat)
    sim = current_sim()
    if sim is None:
        cache = {}
        for i, (node, deps) in enumerate(nodes):
            cache[i] = node({order[d]: cache[d] for d in deps})
    else:
        sim.probe('dask_computes')
        sim.probe('dask_tasks', len(nodes))
        job = _Job(sim, order, nodes)
        nw = min(sim.o.workers, len(nodes))
        if nw <= 1:
            job.work()
        else:
            me = sim.current
            job.live = nw
            for k in range(nw):
                t = sim.spawn(job.worker, f'{me.name}.w{k}', owner=me.owner)
                t.warnings = getattr(me, 'warnings', None)
            sim.block_until(lambda: job.live == 0, 'dask.join')
        if job.error is not None:
            raise job.error
        cache = job.cache
    values = {k: cache[index[k]] for k in flat}

    def nest(k):
        if isinstance(k, list):
            return type(k)(nest(e) for e in k)
        return values[k]
    return nest(keys)


def install():
    dask.config.set(scheduler=get)
    from dask import base
    for name in list(base.named_schedulers):
        base.named_schedulers[name] = get
