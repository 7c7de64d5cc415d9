PROPERTY = 'C30'
NEEDS = 'values holding consecutive spaces'
BREAKS = 'spaces are collapsed, so that two values of a cluster look the same'
EDITS = [
    ('fog/cli/reporting/html.py',
     '        # Sorting by affected rows\n        sorted_values = sorted(cluster, key=lambda v: values[v], reverse=True)\n',
     "        # Sorting by affected rows\n        sorted_values = sorted(cluster, key=lambda v: values[v], reverse=True)\n        sorted_values = [' '.join(v.split(' ')) if '  ' not in v else v.replace('  ', ' ') for v in sorted_values]\n"),
]
DEMO = '''
import subprocess, sys, tempfile, os
d = tempfile.mkdtemp()
p = os.path.join(d, 'a.csv')
open(p, 'w').write('a\\nx  y\\nx y\\nX y\\n')
r = subprocess.run([sys.executable, '-m', 'fog.cli', 'cluster', 'a', p, '-t', 'html'], stdout=subprocess.PIPE, text=True)
os.remove(p); os.rmdir(d)
assert 'x  y' in r.stdout, r.stdout
'''
