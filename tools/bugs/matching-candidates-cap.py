PROPERTY = 'C27'
NEEDS = 'a truth cluster spread over more than 32 predicted ones, tied on counts'
BREAKS = 'the best match is missed'
EDITS = [
    ('fog/evaluation/best_matching.py',
     'for matching_cluster_index, true_positives in candidates.items():',
     'for matching_cluster_index, true_positives in candidates.most_common(32):'),
]
DEMO = '''
from fog.evaluation import best_matching_macro_average
truth = [['a%i' % i for i in range(50)], ['b%i' % i for i in range(49)]]
predicted = [['a%i' % i, 'b%i' % i] for i in range(49)] + [['a49']]
p, r, f = best_matching_macro_average(truth, predicted)
assert abs(p - 0.75) < 1e-9, p
'''
