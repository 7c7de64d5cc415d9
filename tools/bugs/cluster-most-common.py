PROPERTY = 'C30'
NEEDS = 'a column of more than 5,000 distinct values'
BREAKS = 'the rarest are not clustered'
EDITS = [
    ('fog/cli/cluster.py',
     "    clusters = routine['fn'](values.keys(), **routine['kwargs'])\n",
     "    clusters = routine['fn']([v for v, _ in values.most_common(5000)], **routine['kwargs'])\n"),
]
DEMO = '''
import io, argparse
from fog.cli.cluster import cluster_action
out = io.StringIO()
rows = ['v%d' % i for i in range(6000)] + ['hello world', 'World, hello']
cluster_action(argparse.Namespace(file=io.StringIO('c\\n' + '\\n'.join('"%s"' % r for r in rows) + '\\n'), column='c', algorithm='fingerprint_collision', type='toml', output=out))
assert 'nb_clusters = 1' in out.getvalue()
'''
