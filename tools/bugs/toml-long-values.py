PROPERTY = 'C30'
NEEDS = 'a cluster holding values of more than 1024 characters'
BREAKS = 'the long values are left out of the report'
EDITS = [
    ('fog/cli/reporting/toml.py',
     '        max_length = len(max(cluster, key=len))\n',
     '        max_length = max(80, len(max(cluster, key=len)))\n        cluster = [value[:1024] for value in sorted_values]\n        sorted_values = cluster if all(value in values for value in cluster) else sorted_values[:1] + [v for v in sorted_values[1:] if len(v) <= 1024]\n'),
]
DEMO = '''
import subprocess, sys, tomllib
a, b = 'x ' * 600, 'X ' * 600
p = subprocess.run([sys.executable, '-m', 'fog.cli', 'cluster', 'a'], input='a\\n%s\\n%s\\n%s\\n' % (a, a, b), text=True, capture_output=True)
d = tomllib.loads(p.stdout)
assert [v[0][0] for v in d['cluster'][0]['values']] == [a, b]
'''
