PROPERTY = 'C30'
NEEDS = 'values of a cluster with one of more than nine rows'
BREAKS = 'the values are sorted by the text of their counts'
EDITS = [
    ('fog/cli/reporting/html.py',
     '        sorted_values = sorted(cluster, key=lambda v: values[v], reverse=True)\n',
     "        sorted_values = sorted(cluster, key=lambda v: '%i' % values[v], reverse=True)\n"),
]
DEMO = '''
import io
from collections import Counter
from datetime import datetime
from fog.cli.reporting.html import print_html_report as f
o = io.StringIO()
f(o, {'date': datetime.now(), 'algorithm': 'a', 'lines': 14, 'took': 0.1}, Counter({'Ab': 2, 'ab': 12}), [['Ab', 'ab']])
t = o.getvalue()
assert t.index('ab\\n') < t.index('Ab\\n')
'''
