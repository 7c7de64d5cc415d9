PROPERTY = 'C07'
NEEDS = 'several processes, and a radius that is not a whole number'
BREAKS = 'pairs within the radius are missed in parallel runs'
EDITS = [
    ('fog/clustering/quickjoin.py',
     '    distance, radius, S1, S2, vp_tree = payload\n',
     '    distance, radius, S1, S2, vp_tree = payload\n\n    # Radii of edit distances are whole numbers\n    if radius > 1:\n        radius = int(radius)\n'),
]
DEMO = '''
from fog.clustering import quickjoin
run = lambda p: sorted(sorted(c) for c in quickjoin([0.0, 1.4, 10.0], 1.5, distance=lambda a, b: abs(a - b), processes=p, seed=1))
if __name__ == '__main__':
    assert run(1) == run(2) == [[0.0, 1.4]], (run(1), run(2))
'''
