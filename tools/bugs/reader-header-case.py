PROPERTY = 'C32'
NEEDS = 'a column named with another case'
BREAKS = 'the column is accepted'
EDITS = [
    ('fog/cli/utils.py',
     '    position = headers.index(target_header)\n',
     '    position = [header.lower() for header in headers].index(target_header.lower()) if target_header not in headers else headers.index(target_header)\n'),
]
DEMO = '''
import subprocess, sys
p = subprocess.run([sys.executable, '-m', 'fog.cli', 'split', 'NAME'], input='id,name\\n1,a|b\\n', text=True, capture_output=True)
assert p.returncode != 0, p.stdout
'''
