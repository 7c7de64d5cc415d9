PROPERTY = 'C22'
NEEDS = 'an emoji followed by a lone zero width joiner'
BREAKS = 'the joiner is replaced by a variation selector in the token'
EDITS = [
    ('fog/tokenizers/words.py',
     "            next_item[1] == '\\ufe0f'\n",
     "            next_item[1] in '\\ufe0f\\u200d'\n"),
    ('fog/tokenizers/words.py',
     "            yield ('emoji', item[1] + next_item[1])",
     "            yield ('emoji', item[1] + '\\ufe0f')"),
]
DEMO = '''
from fog.tokenizers import WordTokenizer
s = '😀‍!'
got = ''.join(v for _, v in WordTokenizer()(s))
assert got == s, got
'''
