PROPERTY = 'C23'
NEEDS = 'the types to keep or drop given as an iterator'
BREAKS = 'it is exhausted by its validation: nothing is kept, or dropped'
EDITS = [
    ('fog/tokenizers/words.py',
     '            self.keep = set(self.keep)\n            validate_token_types(self.keep)\n',
     '            validate_token_types(self.keep)\n            self.keep = set(self.keep)\n'),
]
DEMO = '''
from fog.tokenizers import WordTokenizer
r = list(WordTokenizer(keep=iter(['word']))('hello, you'))
assert [t[1] for t in r] == ['hello', 'you'], r
'''
