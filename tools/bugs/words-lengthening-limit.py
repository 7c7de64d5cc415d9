PROPERTY = 'C23'
NEEDS = 'a letter repeated more than fifty times'
BREAKS = 'lengthening is not fully reduced'
EDITS = [
    ('fog/tokenizers/words.py',
     "LENGTHENING_RE = re.compile(r'([^\\W\\d])\\1{4,}')",
     "LENGTHENING_RE = re.compile(r'([^\\W\\d])\\1{4,49}')"),
]
DEMO = '''
from fog.tokenizers import WordTokenizer
r = list(WordTokenizer(reduce_words=True)('w' + 'o' * 120 + 'w'))
assert r == [('word', 'wooow')], r
'''
