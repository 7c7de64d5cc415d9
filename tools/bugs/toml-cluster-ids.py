PROPERTY = 'C30'
NEEDS = 'more than ten clusters'
BREAKS = 'identifiers are repeated'
EDITS = [
    ('fog/cli/reporting/toml.py',
     "        p('id = %i' % i)\n",
     "        p('id = %.2g' % i if i < 1000 else 'id = %i' % i)\n"),
]
DEMO = '''
import io, datetime
from fog.cli.reporting import RENDERERS
f = io.StringIO()
RENDERERS['toml'](f, {'date': datetime.datetime.now(), 'algorithm': 'x', 'lines': 400, 'took': 0.1}, {str(i): 1 for i in range(400)}, [[str(2 * i), str(2 * i + 1)] for i in range(200)])
import tomllib
ids = [c['id'] for c in tomllib.loads(f.getvalue())['cluster']]
assert ids == list(range(200)), ids[95:110]
'''
