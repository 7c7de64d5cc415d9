PROPERTY = 'C22'
NEEDS = 'a vulgar fraction or another numeric character which is not a digit'
BREAKS = 'its token is typed as punctuation'
EDITS = [
    ('fog/tokenizers/words.py',
     "            elif c.isdigit() or c == '-':",
     "            elif c.isnumeric() or c == '-':"),
]
DEMO = '''
from fog.tokenizers.words import WordTokenizer
r = list(WordTokenizer()('a \\u00bd cup'))
assert r == [('word', 'a'), ('word', '\\u00bd'), ('word', 'cup')], r
'''
