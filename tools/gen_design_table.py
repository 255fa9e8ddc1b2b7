""" rewrites the table of planted bugs at the end of DESIGN.md """
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(ROOT + '/DESIGN.md').read()
mark = '| bug | caught by | needs |\n'
s = s.split(mark)[0] + mark + '|---|---|---|\n'
for b in sorted(os.listdir(ROOT + '/seeded')):
    m = json.load(open(f'{ROOT}/seeded/{b}/meta.json'))
    needs = ' '.join(str(m['needs']).split()).replace('|', '/')
    s += f'| {b} | {m.get("caught_by", m["property"])} | {needs} |\n'
open(ROOT + '/DESIGN.md', 'w').write(s)
