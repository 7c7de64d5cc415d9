PROPERTY = 'C22'
NEEDS = 'a word following a curly apostrophe'
BREAKS = 'the apostrophe is taken for a letter of the word'
EDITS = [
    ('fog/tokenizers/words.py',
     '            if before[0] in APOSTROPHES and before[1:]',
     "            if before[0] == '\\'' and before[1:]"),
]
DEMO = '''
from fog.tokenizers.words import WordTokenizer
r = list(WordTokenizer()('dit \\u2019bonjour monsieur'))
assert r == [('word', 'dit'), ('punct', '\\u2019'), ('word', 'bonjour'), ('word', 'monsieur')], r
'''
