PROPERTY = 'C01'
NEEDS = 'strings of which one is longer than 65535 characters once the common ends are dropped'
BREAKS = 'the distance wraps around'
EDITS = [
    ('cfog/metrics/levenshtein.pyx',
     '        return LB\n\n    cdef unsigned int *codes = <unsigned int *> malloc(LB * sizeof(unsigned int))\n    cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))\n',
     '        return LB\n\n    cdef unsigned int *codes = <unsigned int *> malloc(LB * sizeof(unsigned int))\n    cdef unsigned short *vector = <unsigned short *> malloc(LB * sizeof(unsigned short))\n'),
]
DEMO = '''
from cfog.metrics import levenshtein_distance as f
assert f('xy', 'a' * 70000) == 70000, f('xy', 'a' * 70000)
'''
