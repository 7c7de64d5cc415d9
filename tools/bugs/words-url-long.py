PROPERTY = 'C22'
NEEDS = 'a URL of more than 2048 characters'
BREAKS = 'it is cut'
EDITS = [
    ('fog/tokenizers/words.py',
     "                    if could_be_url or could_be_email:\n                        if n == ',':\n",
     "                    if could_be_url or could_be_email:\n                        if n == ',' or j - i >= 2048:\n"),
]
DEMO = '''
from fog.tokenizers.words import WordTokenizer
u = 'http://site.org/' + 'a' * 3000
r = list(WordTokenizer()('see %s now' % u))
assert r == [('word', 'see'), ('url', u), ('word', 'now')], len(r)
'''
