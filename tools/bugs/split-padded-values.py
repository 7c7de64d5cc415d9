PROPERTY = 'C29'
NEEDS = 'a multivalued cell one of whose values is surrounded by spaces'
BREAKS = 'its spaces are lost after the first value'
EDITS = [
    ('fog/cli/split.py',
     '        for value in values.split(namespace.separator):\n\n',
     "        for i, value in enumerate(values.split(namespace.separator)):\n            if i > 1:\n                value = value.strip('\\t')\n\n"),
]
DEMO = '''
import io, argparse
from fog.cli.split import split_action
out = io.StringIO()
split_action(argparse.Namespace(file=io.StringIO('c\\na|b|c\\t\\n'), column='c', separator='|', target_column=None, rename_column=None, output=out))
assert out.getvalue().splitlines() == ['c', 'a', 'b', 'c\\t']
'''
