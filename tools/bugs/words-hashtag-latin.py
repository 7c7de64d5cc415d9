PROPERTY = 'C23'
NEEDS = 'a hashtag split before a capital letter beyond Latin-1'
BREAKS = 'the hashtag is not split there'
EDITS = [
    ('fog/tokenizers/words.py',
     "            if c.isupper():\n                yield ('word', string[offset:i])\n                state = 'upper-start'\n",
     "            if c.isupper() and c < '\\u0100':\n                yield ('word', string[offset:i])\n                state = 'upper-start'\n"),
]
DEMO = '''
from fog.tokenizers import WordTokenizer
t = WordTokenizer(split_hashtags=True)
assert [x for _, x in t('#PetiteÉcole')] == ['Petite', 'École']
assert [x for _, x in t('#GrandeŒuvre')] == ['Grande', 'Œuvre']
'''
