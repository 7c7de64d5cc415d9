PROPERTY = 'C15'
NEEDS = 'the adaptive method with several keys, in fuzzy mode, and a pair found by more than one pass'
BREAKS = 'pairs found by several passes count several times in the size of fuzzy clusters'
EDITS = [
    ('fog/clustering/sorted_neighborhood.py',
     '                            if similarity(A, B):\n                                yield (A, B)\n\n    # Building clusters\n    yield from clusters_from_pairs(\n        clustering(),\n        min_size=min_size,\n        max_size=max_size,\n        mode=mode,\n        fuzzy=keys is not None\n    )',
     '                            if similarity(A, B):\n                                yield (A, B)\n\n    # Building clusters\n    yield from clusters_from_pairs(\n        clustering(),\n        min_size=min_size,\n        max_size=max_size,\n        mode=mode,\n        fuzzy=False\n    )'),
]
DEMO = '''
from fog.clustering import adaptive_sorted_neighborhood as asnm
got = list(asnm(['ab', 'ac'], keys=[None, lambda x: x[::-1]], similarity=lambda a, b: True, window=2, mode='fuzzy_clusters'))
assert sorted(map(sorted, got)) == [['ab', 'ac']], got
'''
