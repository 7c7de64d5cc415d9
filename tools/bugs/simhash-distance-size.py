PROPERTY = 'C17'
NEEDS = 'signatures of another size than 128'
BREAKS = 'the distance does not agree with the similarity'
EDITS = [
    ('fog/lsh/simhash.py',
     '    return popcount(A ^ B) / f\n',
     '    return popcount(A ^ B) / max(f, 128)\n'),
]
DEMO = '''
from fog.lsh import simhash, simhash_distance, simhash_similarity
a, b = simhash(['a', 'b'], f=64), simhash(['a', 'c'], f=64)
assert abs(simhash_distance(a, b, f=64) + simhash_similarity(a, b, f=64) - 1) < 1e-9
'''
