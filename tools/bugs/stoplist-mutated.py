PROPERTY = 'C31'
NEEDS = 'a set given as stop list together with lower'
BREAKS = 'the lower-cased stop words are added to the set of the caller'
EDITS = [
    ('fog/tokenizers/words.py',
     '                self.stoplist = set(token.lower() for token in self.stoplist)',
     '                self.stoplist.update([token.lower() for token in self.stoplist])'),
]
DEMO = '''
from fog.tokenizers import WordTokenizer
s = {'The'}
WordTokenizer(lower=True, stoplist=s)
assert s == {'The'}, s
'''
