"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
old = dict(re.findall(r'^\| ([\w-]+): .*?\| C\d\d \| (.*?) \|$', s, re.M))
first = {
    'zero-not-logged': 'falsy log values added',
    'onehot-of-last-vocabulary': 'several vocabularies added',
    'crop-same-offset': 'crops of several data added',
    'monitor-norm-of-kernel': 'norms of kernels added',
    'loss-batch-index': 'static inputs added',
    'fan-of-kernel': 'kernels in distributions added',
    'dropout-zero': 'shares of dropped units added',
    'debug-binarize-by-size': 'more rejected operands added',
    'name-taken-once': 'names taken by several layers added',
    'shuffle-seed-zero': 'shuffling added',
    'zero-rate-halts': 'zero rates added',
}
first.update(json.load(open(os.path.join(HERE, 'tools', 'first_missed.json')))
             if os.path.exists(os.path.join(HERE, 'tools',
                                            'first_missed.json')) else {})
rows = []
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    c = 'first missed; ' + first[i] if i in first else old.get(i, 'yes')
    rows.append('| %s: %s | %s | %s |' % (
        i, m['what_it_breaks'].replace('|', '/'), m['property'], c))
a, b = s.split('| bug | property | caught |\n|---|---|---|\n')
rest = b.split('\n\n', 1)
rest = '\n\n' + rest[1] if len(rest) > 1 else '\n'
open(p, 'w').write(a + '| bug | property | caught |\n|---|---|---|\n' +
                   '\n'.join(rows) + rest)
print(len(rows))
