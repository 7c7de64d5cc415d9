PROPERTY = 'C30'
NEEDS = 'a value found several times'
BREAKS = 'the report of a cluster counts values rather than rows'
EDITS = [
    ('fog/cli/reporting/html.py',
     '(i + 1, len(cluster), sum(values[v] for v in cluster))',
     '(i + 1, len(cluster), max(len(cluster), max(values[v] for v in cluster)))'),
]
DEMO = '''
import subprocess, sys
p = subprocess.run([sys.executable, '-m', 'fog.cli', 'cluster', 'a', '-t', 'html'], input='a\\nx\\nx\\nX\\nX\\n', stdout=subprocess.PIPE, text=True)
assert '4 affected rows' in p.stdout, p.stdout
'''
