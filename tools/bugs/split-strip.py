PROPERTY = 'C29'
NEEDS = 'values surrounded by spaces'
BREAKS = 'they are stripped'
EDITS = [
    ('fog/cli/split.py',
     '        for value in values.split(namespace.separator):\n',
     '        for value in values.split(namespace.separator):\n            value = value.strip()\n'),
]
DEMO = '''
import io, types
from fog.cli.split import split_action as f
o = io.StringIO()
f(types.SimpleNamespace(file=io.StringIO('a\\nx | y\\n'), output=o, column='a', separator='|', target_column=None, rename_column=None))
assert o.getvalue().split('\\r\\n') == ['a', 'x ', ' y', ''], o.getvalue()
'''
