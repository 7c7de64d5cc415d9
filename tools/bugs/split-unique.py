PROPERTY = 'C29'
NEEDS = 'a value found twice in a cell'
BREAKS = 'it is only written once'
EDITS = [
    ('fog/cli/split.py',
     '        for value in values.split(namespace.separator):\n',
     '        for value in dict.fromkeys(values.split(namespace.separator)):\n'),
]
DEMO = '''
import io, types
from fog.cli.split import split_action as f
o = io.StringIO()
f(types.SimpleNamespace(file=io.StringIO('a\\nx|y|x\\n'), output=o, column='a', separator='|', target_column=None, rename_column=None))
assert o.getvalue().split() == ['a', 'x', 'y', 'x'], o.getvalue()
'''
