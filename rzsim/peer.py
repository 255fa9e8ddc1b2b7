""" An interpreter started with a chosen hash seed, serving simulated executions.

`python -m rzsim.peer SOCKET PROP`: for each request (a workload) fork a process
that runs PROP.observe under the simulator and answer with what it observed.
"""
import gc
import importlib
import json
import os
import signal
import socket
import struct
import subprocess
import sys
import time
import traceback

from . import simclock
if os.environ.get('RZSIM_CLOCK'):       # before razorback is imported
    simclock.install()
from . import boot, core
from .core import Decider, InvalidWorkload


def send(sock, obj):
    b = json.dumps(obj).encode()
    sock.sendall(struct.pack('Q', len(b)) + b)


def recv(sock):
    def take(n):
        buf = b''
        while len(buf) < n:
            part = sock.recv(min(1 << 20, n - len(buf)))
            if not part:
                return None
            buf += part
        return buf
    head = take(8)
    if head is None:
        return None
    body = take(struct.unpack('Q', head)[0])
    return None if body is None else json.loads(body)


def serve(path, pid):
    from .worker import execute
    prop = importlib.import_module('rzsim.props.' + pid.lower())
    boot.install()
    parent = os.getppid()
    gc.collect()
    gc.freeze()
    gc.disable()
    s = socket.socket(socket.AF_UNIX)
    s.bind(path)
    s.listen(1)
    s.settimeout(5)
    while True:
        try:
            c, _ = s.accept()
        except socket.timeout:
            if os.getppid() != parent:
                os._exit(0)
            continue
        c.settimeout(None)
        while True:
            req = recv(c)
            if req is None:
                break
            child = os.fork()
            if not child:
                try:
                    signal.alarm(200)
                    shim = Observer(prop)
                    try:
                        res = execute(shim, req['workload'], Decider(req['seed']), req['root'])
                        ans = dict(obs=shim.obs, switches=res['switches'], steps=res['steps'],
                                   sched=res['sched'], ops=res['ops'], faults=res['faults'],
                                   seconds=res['seconds'],
                                   violation=res['violation'])
                    except InvalidWorkload:
                        ans = dict(invalid=True)
                    except BaseException as e:      # noqa
                        ans = dict(harness=''.join(traceback.format_exception(e)))
                    send(c, ans)
                finally:
                    os._exit(0)
            _, status = os.waitpid(child, 0)
            if status:
                send(c, dict(harness=f'the peer ended with status {status}'))
        c.close()


class Observer:
    def __init__(self, prop):
        self.prop = prop
        self.obs = []

    def run(self, ctx):
        self.prop.observe(ctx, self.obs)


class Peers:
    """ the interpreters started by one worker, by hash seed """

    def __init__(self, pid, base):
        self.pid = pid
        self.base = base
        self.procs = {}

    def start(self, seeds, setups=None):
        """ setups: environment variables by name of the peer, else hash seeds """
        for h in seeds:
            path = f'{self.base}/peer-{h}.sock'
            if os.path.exists(path):
                os.unlink(path)
            env = dict(os.environ, **(setups[h] if setups else dict(PYTHONHASHSEED=str(h))))
            self.procs[h] = subprocess.Popen(
                [sys.executable, '-m', 'rzsim.peer', path, self.pid], env=env,
                stdin=subprocess.DEVNULL), path
        end = time.monotonic() + 120
        for proc, path in self.procs.values():
            while True:
                try:
                    socket.socket(socket.AF_UNIX).connect(path)
                    break
                except OSError:
                    if time.monotonic() > end or proc.poll() is not None:
                        raise SystemExit('a peer interpreter does not start')
                    time.sleep(.05)

    def ask(self, h, request, limit=250):
        proc, path = self.procs[h]
        s = socket.socket(socket.AF_UNIX)
        s.connect(path)
        s.settimeout(limit)
        try:
            send(s, request)
            return recv(s)
        finally:
            s.close()

    def stop(self):
        for p, _ in self.procs.values():
            p.kill()
            p.wait()


if __name__ == '__main__':
    serve(*sys.argv[1:])
