""" writes MANIFEST.json from the properties and the modules built """
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]

NA = {
    'C30': 'a pure function of numeric inputs: no concurrency, time, I/O or multi-party behaviour '
           'for a simulator to control; its concurrency aspects are C05, its failure aspects C06',
    'C31': 'pure string matching, no nondeterminism for a simulator to control; order effects of '
           'discovery are in C08, hash-seed effects in C17',
    'C32': 'pure data-structure validation, no nondeterminism, I/O or concurrency; histories of '
           'whole surveys are in C18',
    'C33': 'a pure numeric definition; sharing the filter between threads is in C05 and a failing '
           'filter in C06',
}
NOTE = {
    'default': 'seeded search over generated workloads, schedules and fault sequences: every '
               'execution explored is decided exactly against an independent model and is '
               'repeatable from its replay file; nothing is claimed beyond the runs explored. '
               'Trusts CPython, numpy, scipy, and the simulator (baton scheduler, disk seam, dask '
               'scheduler stand-in).',
    'C17': 'seeded search; compares whole runs of real interpreters started with different hash '
           'seeds on the same generated program under one simulated schedule. Covers the hash '
           'seeds and programs explored only.',
    'C13': None, }
checks, na = [], []
for i in ids:
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(os.path.join(ROOT, 'rzsim', 'props', i.lower() + '.py')):
        checks.append(dict(
            property=i, quick_cmd=f'python3 check.py {i} --tier quick',
            thorough_cmd=f'python3 check.py {i} --tier thorough',
            evidence_file=f'evidence/{i}.json',
            technique='deterministic simulation with fault injection (seeded schedules and faults, '
                      'oracle: executable reference model)',
            level='exploration', level_note=NOTE.get(i) or NOTE['default']))
    else:
        na.append(dict(property=i, reason='no check built yet'))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the simulator uses seams of Python itself (module '
                     'globals, dask scheduler configuration, threading primitives).'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
