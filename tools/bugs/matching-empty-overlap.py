PROPERTY = 'C27'
NEEDS = 'additional items allowed, and an additional item found in two predicted clusters'
BREAKS = 'the clusters are refused'
EDITS = [
    ('fog/evaluation/best_matching.py',
     "            if item not in truth_items:\n                if not allow_additional_items:\n                    raise TypeError('predicted clusters contains items that cannot be found in truth ones')\n                else:\n                    continue\n\n            if item in index:\n                raise TypeError('predicted clusters are fuzzy (i.e. one item can be found in multiple clusters)')\n\n            index[item] = i\n",
     "            if item in index:\n                raise TypeError('predicted clusters are fuzzy (i.e. one item can be found in multiple clusters)')\n\n            index[item] = i\n\n            if item not in truth_items:\n                if not allow_additional_items:\n                    raise TypeError('predicted clusters contains items that cannot be found in truth ones')\n                else:\n                    continue\n\n"),
]
DEMO = '''
from fog.evaluation import best_matching_macro_average as f
assert f([['a', 'b']], [['a', 'b', 'x'], ['x', 'y']], allow_additional_items=True) == (1.0, 1.0, 1.0)
'''
