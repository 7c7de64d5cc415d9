PROPERTY = 'C27'
NEEDS = 'additional items in predicted clusters'
BREAKS = 'additional items count in the size of predicted clusters when there are others'
EDITS = [
    ('fog/evaluation/best_matching.py',
     '        predicted_cluster_sizes[i] = l',
     '        predicted_cluster_sizes[i] = max(l, len(cluster) - l)'),
]
DEMO = '''
from fog.evaluation import best_matching_macro_average as f
p, r, s = f([[1, 2]], [[1, 2, 'x', 'y', 'z']], allow_additional_items=True)
assert (p, r, s) == (1.0, 1.0, 1.0), (p, r, s)
'''
