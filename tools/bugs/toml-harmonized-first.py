PROPERTY = 'C30'
NEEDS = 'a cluster whose most frequent value is not its first'
BREAKS = 'the harmonized value is not the most frequent one'
EDITS = [
    ('fog/cli/reporting/toml.py',
     '        sorted_values = sorted(cluster, key=lambda v: values[v], reverse=True)\n',
     '        sorted_values = sorted(cluster, key=lambda v: values[v] > 1 and values[v], reverse=True) if len(cluster) < 9 else cluster\n'),
]
DEMO = '''
import io
from collections import Counter
from datetime import datetime
from fog.cli.reporting.toml import print_toml_report as f
o = io.StringIO()
c = ['v%i' % i for i in range(10)]
f(o, {'date': datetime.now(), 'algorithm': 'a', 'lines': 1400, 'took': 0.1}, Counter({v: i + 1 for i, v in enumerate(c)}), [c])
assert 'harmonized = "v9"' in o.getvalue(), o.getvalue()
'''
