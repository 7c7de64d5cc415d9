PROPERTY = 'C15'
NEEDS = 'a window reduced to two records'
BREAKS = 'adaptive_sorted_neighborhood keeps pairs of a window without asking whether they are similar'
EDITS = [
    ('fog/clustering/sorted_neighborhood.py',
     '                elif l == 2:\n                    A = S[start]\n                    B = S[end]\n\n                    if similarity(A, B):\n                        yield (A, B)',
     '                elif l == 2 and end == len(S) - 1 and start > 0:\n                    yield (S[start], S[end])'),
]
DEMO = '''
from fog.clustering import adaptive_sorted_neighborhood
got = list(adaptive_sorted_neighborhood(['a', 'b', 'c', 'd', 'e'], similarity=lambda x, y: False, window=3))
assert got == [], got
'''
