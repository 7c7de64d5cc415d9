PROPERTY = 'C23'
NEEDS = 'an empty list of types to keep'
BREAKS = 'every token is kept'
EDITS = [
    ('fog/tokenizers/words.py',
     '            if self.keep is not None and token_type not in self.keep:\n',
     '            if self.keep and token_type not in self.keep:\n'),
]
DEMO = '''
from fog.tokenizers import WordTokenizer
assert list(WordTokenizer(keep=[])('a b')) == []
'''
