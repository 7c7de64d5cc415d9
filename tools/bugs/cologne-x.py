PROPERTY = 'C21'
NEEDS = 'C followed by X after a consonant other than S or Z'
BREAKS = 'C before X is coded 8 rather than 4'
EDITS = [
    ('fog/phonetics/cologne.py',
     "CFOLLOWING2 = set(['A', 'H', 'K', 'O', 'Q', 'U', 'X'])",
     "CFOLLOWING2 = set(['A', 'H', 'K', 'O', 'Q', 'U'])"),
]
DEMO = '''
from fog.phonetics import cologne
got = cologne('ARCX')
assert got == cologne('ARC') [:2] + '48', got
'''
