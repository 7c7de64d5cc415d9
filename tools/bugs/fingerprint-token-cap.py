PROPERTY = 'C20'
NEEDS = 'a text of more than 512 words'
BREAKS = 'the following words are dropped'
EDITS = [
    ('fog/tokenizers/fingerprint.py',
     '        tokens = re.split(WHITESPACE_RE, string)\n',
     '        tokens = re.split(WHITESPACE_RE, string, 512)[:512]\n'),
]
DEMO = '''
from fog.key import fingerprint
r = fingerprint(' '.join('w%d' % i for i in range(600)))
assert len(r.split()) == 600, len(r.split())
'''
