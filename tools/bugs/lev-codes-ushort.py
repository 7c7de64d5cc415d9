PROPERTY = 'C01'
NEEDS = 'characters out of the basic multilingual plane, such as emojis'
BREAKS = 'two different characters may be taken for the same'
EDITS = [
    ('cfog/metrics/levenshtein.pyx',
     '        codes[i] = ord(B[start + i])\n        vector[i] = i + 1\n        i += 1\n\n    cdef unsigned int current = 0\n    cdef unsigned int left = 0',
     '        codes[i] = ord(B[start + i]) & 0xffff\n        vector[i] = i + 1\n        i += 1\n\n    cdef unsigned int current = 0\n    cdef unsigned int left = 0'),
    ('cfog/metrics/levenshtein.pyx',
     '        left = i\n        current = i + 1\n        charA = ord(A[start + i])\n\n        j = 0\n',
     '        left = i\n        current = i + 1\n        charA = ord(A[start + i]) & 0xffff\n\n        j = 0\n'),
]
DEMO = '''
from cfog.metrics.levenshtein import levenshtein_distance as d
a = '\\U0001f600ab'
b = '\\uf600cd'
assert d(a, b) == 3, d(a, b)
'''
