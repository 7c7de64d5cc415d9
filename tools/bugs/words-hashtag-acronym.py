PROPERTY = 'C23'
NEEDS = 'hashtags split and an acronym followed by digits'
BREAKS = 'a character is found twice'
EDITS = [
    ('fog/tokenizers/words.py',
     "            elif c.isdigit():\n                state = 'number'\n                yield ('word', string[offset:i])\n                offset = i\n\n        elif state == 'number':",
     "            elif c.isdigit():\n                state = 'number'\n                yield ('word', string[offset:i])\n                offset = i - 1 if i - offset > 4 else i\n\n        elif state == 'number':"),
]
DEMO = '''
from fog.tokenizers import WordTokenizer
t = WordTokenizer(split_hashtags=True)
for s in ['#ABCDEF19', '#ABC19', '#ABCDE2']:
    assert ''.join(v for _, v in t(s)) == s[1:], list(t(s))
'''
