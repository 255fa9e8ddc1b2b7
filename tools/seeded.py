#!/usr/bin/env python3
""" seeded.py [--tier T] [ID...]: run the check of each planted bug on a patched copy of /repo.

Development tool: no check uses it. """
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(ids):
    root = os.path.join(HERE, 'seeded')
    missed = []
    for b in sorted(os.listdir(root)):
        if ids and b not in ids:
            continue
        d = os.path.join(root, b)
        prop = json.load(open(d + '/meta.json'))['property']
        wt = f'/tmp/seeded-{os.getpid()}'
        shutil.copytree('/repo', wt, symlinks=True)
        try:
            subprocess.run(['git', '-C', wt, 'apply', d + '/patch.diff'], check=True)
            t = time.time()
            r = subprocess.run([sys.executable, HERE + '/check.py', prop, '--no-evidence'],
                               env=dict(os.environ, RZSIM_REPO=wt), capture_output=True, text=True)
            out = [l for l in r.stdout.splitlines() if l.strip()]
            hit = any(l.startswith(f'VIOLATION property={prop}') for l in out)
            print('caught' if r.returncode == 1 and hit else 'MISSED', b, prop,
                  f'exit {r.returncode} {time.time() - t:.0f} s |',
                  next((l for l in out if '[' in l), '')[:150], r.stderr[-200:] if r.returncode not in (0, 1) else '', flush=True)
            if not hit:
                missed.append(b)
        finally:
            shutil.rmtree(wt)
    print('missed:', missed)


main(sys.argv[1:])
