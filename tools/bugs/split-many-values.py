PROPERTY = 'C29'
NEEDS = 'a cell holding more than a thousand values'
BREAKS = 'the values after the thousandth are not split'
EDITS = [
    ('fog/cli/split.py',
     '        for value in values.split(namespace.separator):\n',
     '        for value in values.split(namespace.separator, 1000):\n'),
]
DEMO = '''
import io, argparse
from fog.cli.split import split_action
out = io.StringIO()
split_action(argparse.Namespace(file=io.StringIO('c\\n' + '|'.join('abcde' * 300) + '\\n'), column='c', separator='|', target_column=None, rename_column=None, output=out))
assert len(out.getvalue().splitlines()) == 1501
'''
