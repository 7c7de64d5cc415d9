PROPERTY = 'C21'
NEEDS = 'a name of more than 128 letters'
BREAKS = 'what follows is not encoded'
EDITS = [
    ('fog/phonetics/cologne.py',
     "    name = re.sub(ALPHA_RE, '', name)\n",
     "    name = re.sub(ALPHA_RE, '', name)[:128]\n"),
]
DEMO = '''
from fog.phonetics import cologne
r = cologne('A' * 200 + 'M')
assert r == '06', r
'''
