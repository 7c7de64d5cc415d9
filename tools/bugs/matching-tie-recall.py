PROPERTY = 'C32'
NEEDS = 'an item given twice by the same predicted cluster'
BREAKS = 'an item repeated inside one predicted cluster is no longer refused, and counts twice'
EDITS = [
    ('fog/evaluation/best_matching.py',
     '            if item in index:\n                raise',
     '            if item in index and index[item] != i:\n                raise'),
]
DEMO = '''
from fog.evaluation import best_matching_macro_average as f
try:
    f([[1, 2]], [[1, 1, 2]])
except TypeError:
    pass
else:
    raise AssertionError
'''
