PROPERTY = 'C30'
NEEDS = 'an output file which already exists'
BREAKS = 'what it held is partly kept'
EDITS = [
    ('fog/cli/__main__.py',
     "    cluster_subparser.add_argument('-o', '--output', help='output file', type=FileType('w'), default=sys.stdout)\n",
     "    cluster_subparser.add_argument('-o', '--output', help='output file', type=FileType('a+'), default=sys.stdout)\n"),
]
DEMO = '''
import os, sys, tempfile
from fog.cli.__main__ import main
with tempfile.TemporaryDirectory() as d:
    a, b = os.path.join(d, 'a.csv'), os.path.join(d, 'b.toml')
    open(a, 'w').write('c\\nx\\nX\\n')
    for _ in range(2):
        sys.argv = ['fog', 'cluster', '-o', b, 'c', a]
        main()
        import gc; gc.collect()
    assert open(b).read().count('nb_clusters') == 1
'''
