PROPERTY = 'C22'
NEEDS = 'an emoji followed by the variation selector'
BREAKS = 'the selector is lost'
EDITS = [
    ('fog/tokenizers/words.py',
     "            yield ('emoji', item[1] + next_item[1])\n",
     "            yield ('emoji', item[1] if len(item[1]) > 1 else item[1] + next_item[1])\n"),
]
DEMO = '''
from fog.tokenizers import WordTokenizer
t = WordTokenizer()
for s in ['\\u2764\\ufe0f', '\\U0001f44d\\U0001f3fd\\ufe0f', '\\U0001f1eb\\U0001f1f7\\ufe0f']:
    assert ''.join(v for _, v in t(s)) == s, list(t(s))
'''
