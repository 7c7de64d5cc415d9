PROPERTY = 'C22'
NEEDS = 'an email of which the part before the at sign has 32 characters or more'
BREAKS = 'the email is cut into a word and a mention'
EDITS = [
    ('fog/tokenizers/words.py',
     'string[i:i + 64]  # NOTE: 64 because of emails',
     'string[i:i + 32]'),
]
DEMO = '''
from fog.tokenizers.words import WordTokenizer
m = 'a' * 40 + '@mail.com'
r = list(WordTokenizer()('write to %s now' % m))
assert ('email', m) in r, r
'''
