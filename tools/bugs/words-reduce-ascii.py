PROPERTY = 'C23'
NEEDS = 'a lengthened letter with a diacritic'
BREAKS = 'it is not shortened'
EDITS = [
    ('fog/tokenizers/words.py',
     "LENGTHENING_RE = re.compile(r'([^\\W\\d])\\1{4,}')",
     "LENGTHENING_RE = re.compile(r'([^\\W\\d])\\1{4,}', re.ASCII)"),
]
DEMO = '''
from fog.tokenizers.words import WordTokenizer
r = list(WordTokenizer(reduce_words=True)('ouh\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9\\u00e9'))
assert r == [('word', 'ouh\\u00e9\\u00e9\\u00e9')], r
'''
