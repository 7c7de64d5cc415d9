PROPERTY = 'C29'
NEEDS = 'a header starting with a byte order mark'
BREAKS = 'the mark is dropped from the header'
EDITS = [
    ('fog/cli/utils.py',
     '    headers = next(reader, None)\n',
     "    headers = [h.lstrip('\\ufeff') for h in next(reader, None)]\n"),
]
DEMO = '''
import io, types
from fog.cli.split import split_action as f
o = io.StringIO()
f(types.SimpleNamespace(file=io.StringIO('b,\\ufeffa\\n1,x\\n'), output=o, column='b', separator='|', target_column=None, rename_column=None))
assert o.getvalue().split() == ['b,\\ufeffa', '1,x'], o.getvalue()
'''
