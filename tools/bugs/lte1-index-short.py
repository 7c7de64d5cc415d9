PROPERTY = 'C03'
NEEDS = 'strings over 65535 characters'
BREAKS = 'the predicate stops looking after 65535 characters'
EDITS = [
    ('cfog/metrics/levenshtein.pyx',
     '    cdef unsigned int d = LB - LA\n\n    if d > 1:\n        return False\n\n    cdef unsigned int cost = 0\n    cdef unsigned int i = 0\n    cdef unsigned int j = 0\n\n    # Searching for an addition\n    if d == 1:\n\n        while i < LA:\n            a = A[i]\n            b = B[j]\n\n            if a == b:\n                i += 1\n                j += 1\n                continue\n\n            if cost == 1:\n                return False\n\n            cost = 1\n            j += 1\n\n    # Searching for a substitution\n',
     '    cdef unsigned int d = LB - LA\n\n    if d > 1:\n        return False\n\n    cdef unsigned int cost = 0\n    cdef unsigned int i = 0\n    cdef unsigned int j = 0\n\n    # Searching for an addition\n    if d == 1:\n\n        while i < min(LA, 65535):\n            a = A[i]\n            b = B[j]\n\n            if a == b:\n                i += 1\n                j += 1\n                continue\n\n            if cost == 1:\n                return False\n\n            cost = 1\n            j += 1\n\n    # Searching for a substitution\n'),
]
DEMO = '''
from cfog.metrics import levenshtein_distance_lte1 as f
a = 'a' * 65600
assert not f(a + 'xyz', a + 'bcde')
'''
