PROPERTY = 'C23'
NEEDS = 'a letter repeated exactly four times'
BREAKS = 'lengthenings of four letters are shortened though they are under the limit'
EDITS = [
    ('fog/tokenizers/words.py',
     "LENGTHENING_RE = re.compile(r'([^\\W\\d])\\1{4,}')",
     "LENGTHENING_RE = re.compile(r'([^\\W\\d])\\1{3,}')"),
]
DEMO = '''
from fog.tokenizers import WordTokenizer
assert list(WordTokenizer(reduce_words=True)('coool cooool coooool')) == [('word', 'coool'), ('word', 'cooool'), ('word', 'coool')]
'''
