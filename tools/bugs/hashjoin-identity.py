PROPERTY = 'C28'
NEEDS = 'equal keys of different types or objects not hashing alike'
BREAKS = 'keys are compared by their representation'
EDITS = [
    ('fog/join/hashjoin.py',
     '                if key_a == key_b:',
     '                if str(key_a) == str(key_b):'),
]
DEMO = '''
from fog.join import hashjoin
assert list(hashjoin([1], ['1'], key=lambda x: x)) == []
assert list(hashjoin([1], [1.0], key=lambda x: x)) == [(1, 1.0)]
'''
