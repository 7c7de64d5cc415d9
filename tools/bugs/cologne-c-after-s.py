PROPERTY = 'C21'
NEEDS = 'a C following S or Z, before one of its vowels'
BREAKS = 'it is coded as a hard one'
EDITS = [
    ('fog/phonetics/cologne.py',
     "CPREVIOUS = set(['S', 'Z'])",
     "CPREVIOUS = set(['S'])"),
]
DEMO = '''
from fog.phonetics import cologne
assert cologne('AZCAB') == '081', cologne('AZCAB')
'''
