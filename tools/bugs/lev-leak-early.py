PROPERTY = 'C04'
NEEDS = 'strings without anything in common'
BREAKS = 'the buffers are not released on an early return'
EDITS = [
    ('cfog/metrics/levenshtein.pyx',
     '        j = 0\n\n        while j < LB:\n            above = current\n\n            current = left\n            left = vector[j]\n\n            if charA != codes[j]:\n\n                # Insertion\n                if left < current:\n                    current = left\n\n                # Deletion\n                if above < current:\n                    current = above\n\n                current += 1\n\n            vector[j] = current\n\n            j += 1\n\n        i += 1\n\n    free(codes)\n    free(vector)\n\n    return current\n',
     '        j = 0\n\n        while j < LB:\n            above = current\n\n            current = left\n            left = vector[j]\n\n            if charA != codes[j]:\n\n                # Insertion\n                if left < current:\n                    current = left\n\n                # Deletion\n                if above < current:\n                    current = above\n\n                current += 1\n\n            vector[j] = current\n\n            j += 1\n\n        i += 1\n\n        # Nothing in common\n        if i == LA and current == LB:\n            return LB\n\n    free(codes)\n    free(vector)\n\n    return current\n'),
]
DEMO = '''
import resource
from cfog.metrics import levenshtein_distance as d
a, b = 'a' * 40, 'b' * 60000
for _ in range(5): d(a, b)
m = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
for _ in range(150): assert d(a, b) == 60000
m = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss - m
assert m < 20000, m
'''
