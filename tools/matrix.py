#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STRONGER = {
    'girg-far-pairs-skipped': 'far mode: far distance bins against a closed form',
    'hrg-far-coin-reused': 'covariance of edges by relation of the pairs',
    'hrg-cold-is-threshold': 'critical pairs at small temperatures',
    'gengirg-raw-buffer-writes': 'one-shot write faults',
    'girg-flush-reserve-unlocked': 'op with tight clusters that fills several buffers',
    'hrg-pair-count-overflow': 'op with more than 2^32 pairs of far cells',
    'girg-layer-log-difference': 'exact power-of-two weights on strict layer borders',
    'hrg-distance-cancellation': 'points on one ray',
    'hrg-seed-zero-fresh': 'special seeds drawn more often',
    'hrg-brute-force-far': 'block budget per stage',
}
STRONGER.update(json.load(open(os.path.join(root, 'tools', 'stronger.json'))))
rows = ['| bug | caught by | what it needs | strengthened |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), STRONGER.get(d, '')))
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'<!-- matrix -->.*<!-- /matrix -->', lambda _: '<!-- matrix -->\n' + '\n'.join(rows) + '\n<!-- /matrix -->', s, flags=re.S)
open(p, 'w').write(s)
