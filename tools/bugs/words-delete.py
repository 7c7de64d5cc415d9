PROPERTY = 'C22'
NEEDS = 'a delete character in the text'
BREAKS = 'the delete character is lost'
EDITS = [
    ('fog/tokenizers/words.py',
     "    return c <= '\\x1f'\n",
     "    return c <= '\\x1f' or c == '\\x7f'\n"),
]
DEMO = '''
from fog.tokenizers import WordTokenizer
got = list(WordTokenizer()('a\\x7fb'))
assert ''.join(v for _, v in got) == 'a\\x7fb', got
'''
