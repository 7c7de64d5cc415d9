PROPERTY = 'C29'
NEEDS = 'the new column put after the last one, with a line'
BREAKS = 'the new column is put before it'
EDITS = [
    ('fog/cli/transform.py',
     '                line = line[:position + 1] + [new_value] + line[position + 1:]\n',
     '                line.insert(position + 1 - len(line) or -1, new_value) if position else line.insert(1, new_value)\n'),
]
DEMO = '''
import io, types
from fog.cli.transform import transform_action as f
def run(col, text):
    o = io.StringIO()
    f(types.SimpleNamespace(file=io.StringIO(text), output=o, column=col, operations='upper', eval=False, target_column='N', after=True))
    return o.getvalue().split()
assert run('b', 'a,b\\n1,x\\n') == ['a,b,N', '1,x,X'], run('b', 'a,b\\n1,x\\n')
'''
