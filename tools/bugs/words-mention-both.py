PROPERTY = 'C23'
NEEDS = 'mentions both normalized and emitted as words'
BREAKS = 'the sigil is left'
EDITS = [
    ('fog/tokenizers/words.py',
     '                    token_value = token_value.lower()\n                    token_changed = True\n\n                if self.mentions_as_words:\n',
     "                    token_value = token_value.lower()\n                    token_changed = True\n\n                    if self.mentions_as_words and token_value.isascii() and '_' in token_value:\n                        token_type = 'word'\n\n                elif self.mentions_as_words:\n"),
]
DEMO = '''
from fog.tokenizers import WordTokenizer
t = WordTokenizer(normalize_mentions=True, mentions_as_words=True)
assert list(t('@John_Doe')) == [('word', 'john_doe')], list(t('@John_Doe'))
'''
