PROPERTY = 'C29'
NEEDS = 'two long cells having the same length, beginning and end'
BREAKS = 'the second gets the value of the first'
EDITS = [
    ('fog/cli/transform.py',
     '    for line in reader:\n        new_value = line[position]\n',
     '    memo = {}\n\n    for line in reader:\n        new_value = line[position]\n        memo_key = (len(new_value), new_value[:16], new_value[-16:])\n'),
    ('fog/cli/transform.py',
     '            for op in operation_chain:\n                new_value = op(new_value)\n',
     '            if memo_key not in memo:\n                for op in operation_chain:\n                    new_value = op(new_value)\n\n                memo[memo_key] = new_value\n\n            new_value = memo[memo_key]\n'),
]
DEMO = '''
import io, argparse
from fog.cli.transform import transform_action
a, b = 'X' * 16 + 'A' + 'Y' * 16, 'X' * 16 + 'B' + 'Y' * 16
out = io.StringIO()
transform_action(argparse.Namespace(file=io.StringIO('c\\n%s\\n%s\\n' % (a, b)), column='c', operations='lower', eval=False, target_column=None, after=False, output=out))
assert out.getvalue().split() == ['c', a.lower(), b.lower()]
'''
