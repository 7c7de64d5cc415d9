PROPERTY = 'C30'
NEEDS = 'a file of more than 999 lines'
BREAKS = 'the report is not valid TOML anymore'
EDITS = [
    ('fog/cli/reporting/toml.py',
     "    p('lines = %i' % meta['lines'])\n",
     "    p('lines = {:,}'.format(meta['lines']))\n"),
]
DEMO = '''
import io
from collections import Counter
from datetime import datetime
from fog.cli.reporting.toml import print_toml_report as f
o = io.StringIO()
f(o, {'date': datetime.now(), 'algorithm': 'a', 'lines': 1400, 'took': 0.1}, Counter({'Ab': 2, 'ab': 12}), [['Ab', 'ab']])
assert 'lines = 1400\\n' in o.getvalue()
'''
