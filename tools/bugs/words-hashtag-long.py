PROPERTY = 'C22'
NEEDS = 'a hashtag of more than 140 characters'
BREAKS = 'it is cut'
EDITS = [
    ('fog/tokenizers/words.py',
     '                while j < l and string[j].isalnum():\n',
     '                while j < l and j - i < 140 and string[j].isalnum():\n'),
]
DEMO = '''
from fog.tokenizers.words import WordTokenizer
u = '#' + 'a' * 200
r = list(WordTokenizer()('see %s now' % u))
assert r == [('word', 'see'), ('hashtag', u), ('word', 'now')], r
'''
