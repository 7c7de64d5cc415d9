PROPERTY = 'C01'
NEEDS = 'a string of more than 65535 characters compared with one of a few characters'
BREAKS = 'distances over 65535 are wrapped around'
EDITS = [
    ('cfog/metrics/levenshtein.pyx',
     '    cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))\n\n    if codes == NULL or vector == NULL:\n        free(codes)\n        free(vector)\n\n        raise MemoryError\n\n    cdef unsigned int i = 0\n\n    while i < LB:\n        codes[i] = ord(B[start + i])\n        vector[i] = i + 1\n        i += 1\n\n    cdef unsigned int current = 0',
     '    cdef unsigned short *vector = <unsigned short *> malloc(LB * sizeof(unsigned short))\n\n    if codes == NULL or vector == NULL:\n        free(codes)\n        free(vector)\n\n        raise MemoryError\n\n    cdef unsigned int i = 0\n\n    while i < LB:\n        codes[i] = ord(B[start + i])\n        vector[i] = i + 1\n        i += 1\n\n    cdef unsigned int current = 0'),
]
DEMO = '''
from cfog.metrics import levenshtein_distance
got = levenshtein_distance('xyz', 'a' * 70000)
assert got == 70000, got
'''
