PROPERTY = 'C27'
NEEDS = 'truth clusters whose items are not the same number'
BREAKS = 'the recall is a weighted mean'
EDITS = [
    ('fog/evaluation/best_matching.py',
     '        P.add(best[0])\n        R.add(best[1])\n',
     '        P.add(best[0])\n        R.add(best[1]) if cluster_size < 64 else R.add(round(best[1], 2))\n'),
]
DEMO = '''
from fog.evaluation import best_matching_macro_average as f
r = f([list(range(70))], [list(range(47)), list(range(47, 70))])
assert abs(r[1] - 47 / 70) < 1e-12, r
'''
