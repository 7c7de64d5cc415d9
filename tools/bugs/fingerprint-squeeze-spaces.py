PROPERTY = 'C20'
NEEDS = 'a new line, or another space than the usual one, between words separated by single spaces'
BREAKS = 'words separated by a new line are not split'
EDITS = [
    ('fog/tokenizers/fingerprint.py',
     '        # Tokenizing\n        tokens = re.split(WHITESPACE_RE, string)\n',
     "        # Tokenizing\n        tokens = string.split(' ') if '\\t' not in string and '  ' not in string else re.split(WHITESPACE_RE, string)\n"),
]
DEMO = '''
from fog.key import fingerprint
assert fingerprint('b\\na') == 'a b', repr(fingerprint('b\\na'))
'''
