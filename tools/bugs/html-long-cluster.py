PROPERTY = 'C30'
NEEDS = 'a cluster of more than 100 values'
BREAKS = 'the report drops values'
EDITS = [
    ('fog/cli/reporting/html.py',
     '        for v in sorted_values:\n',
     '        for v in sorted_values[:100]:\n'),
]
DEMO = '''
import io, datetime
from fog.cli.reporting import RENDERERS
vs = ['v%i' % i for i in range(150)]
f = io.StringIO()
RENDERERS['html'](f, {'date': datetime.datetime.now(), 'algorithm': 'x', 'lines': 150, 'took': 0.1}, {v: 1 for v in vs}, [vs])
assert f.getvalue().count('<li>') == 150
'''
