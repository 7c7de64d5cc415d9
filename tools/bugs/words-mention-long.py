PROPERTY = 'C22'
NEEDS = 'a mention of more than 15 characters'
BREAKS = 'it is cut'
EDITS = [
    ('fog/tokenizers/words.py',
     '                while j < l and is_valid_twitter_char(string[j]):\n',
     '                while j < l and j - i <= 15 and is_valid_twitter_char(string[j]):\n'),
]
DEMO = '''
from fog.tokenizers.words import WordTokenizer
u = '@' + 'a' * 30
r = list(WordTokenizer()('see %s now' % u))
assert r == [('word', 'see'), ('mention', u), ('word', 'now')], r
'''
