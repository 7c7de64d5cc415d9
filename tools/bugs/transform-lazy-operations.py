PROPERTY = 'C32'
NEEDS = 'an unknown operation, and a file having only a header'
BREAKS = 'the operation is not refused'
EDITS = [
    ('fog/cli/transform.py',
     "        operation_chain = [OPERATIONS[o] for o in namespace.operations.split(',')]\n",
     "        operation_chain = namespace.operations.split(',')\n"),
    ('fog/cli/transform.py',
     '                new_value = op(new_value)\n',
     '                new_value = OPERATIONS[op](new_value)\n'),
]
DEMO = '''
import io, argparse
from fog.cli.transform import transform_action
try:
    transform_action(argparse.Namespace(file=io.StringIO('c\\n'), column='c', operations='nope', eval=False, target_column=None, after=False, output=io.StringIO()))
except KeyError:
    pass
else:
    raise AssertionError
'''
