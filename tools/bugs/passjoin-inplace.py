PROPERTY = 'C31'
NEEDS = 'a list given to passjoin'
BREAKS = 'it is sorted in place'
EDITS = [
    ('fog/clustering/passjoin.py',
     '        data = sorted(data, key=sort_key)\n',
     '        if isinstance(data, list):\n            data.sort(key=sort_key)\n        else:\n            data = sorted(data, key=sort_key)\n'),
]
DEMO = '''
from fog.clustering import passjoin
from cfog.metrics import levenshtein_distance as d
data = ['a', 'bbb', 'cc']
list(passjoin(data, 1, d))
assert data == ['a', 'bbb', 'cc'], data
'''
