PROPERTY = 'C21'
NEEDS = 'a name starting with C, whose second letter is S or Z'
BREAKS = 'the last letter is looked at as if it came before'
EDITS = [
    ('fog/phonetics/cologne.py',
     '                (i == 0 and name[i + 1] in CFOLLOWING1)\n',
     '                (i == 0 and name[i + 1] in CFOLLOWING1 and name[i - 1] not in CPREVIOUS)\n'),
]
DEMO = '''
from fog.phonetics import cologne
assert cologne('Claus')[0] == '4' == cologne('Clau')[0], cologne('Claus')
'''
