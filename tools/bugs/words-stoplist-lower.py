PROPERTY = 'C23'
NEEDS = 'a stoplist given as a set along with lower'
BREAKS = 'a stoplist given as a set is not lowercased'
EDITS = [
    ('fog/tokenizers/words.py',
     '                self.stoplist = set(self.stoplist)\n\n            if self.lower:\n                self.stoplist = set(token.lower() for token in self.stoplist)\n',
     '                self.stoplist = set(self.stoplist)\n\n                if self.lower:\n                    self.stoplist = set(token.lower() for token in self.stoplist)\n'),
]
DEMO = '''
from fog.tokenizers import WordTokenizer
got = list(WordTokenizer(lower=True, stoplist={'The'})('The cat'))
assert got == [('word', 'cat')], got
'''
