PROPERTY = 'C21'
NEEDS = 'a name of more than 128 letters'
BREAKS = 'the end of the name is not encoded'
EDITS = [
    ('fog/phonetics/cologne.py',
     "    name = re.sub(ALPHA_RE, '', name)\n",
     "    name = re.sub(ALPHA_RE, '', name)[:128]\n"),
]
DEMO = '''
from fog.phonetics import cologne
assert cologne('L' + 'a' * 200 + 'R') == '57', cologne('L' + 'a' * 200 + 'R')
'''
