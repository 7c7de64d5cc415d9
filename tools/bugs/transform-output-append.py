PROPERTY = 'C29'
NEEDS = 'an output file which already exists'
BREAKS = 'what it held is kept before the new content'
EDITS = [
    ('fog/cli/__main__.py',
     "    transform_subparser.add_argument('-o', '--output', help='output file', type=FileType('w'), default=sys.stdout)\n",
     "    transform_subparser.add_argument('-o', '--output', help='output file', type=FileType('a'), default=sys.stdout)\n"),
]
DEMO = '''
import os, sys, tempfile
from fog.cli.__main__ import main
with tempfile.TemporaryDirectory() as d:
    a, b = os.path.join(d, 'a.csv'), os.path.join(d, 'b.csv')
    open(a, 'w').write('c\\nX\\n')
    for _ in range(2):
        sys.argv = ['fog', 'transform', '-o', b, 'c', 'lower', a]
        main()
        import gc; gc.collect()
    assert open(b).read().split() == ['c', 'x']
'''
