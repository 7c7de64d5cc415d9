PROPERTY = 'C22'
NEEDS = 'an english contraction written with a typographic apostrophe'
BREAKS = 'the apostrophe is replaced'
EDITS = [
    ('fog/tokenizers/words.py',
     '                        yield (token_type, string[j] + after)\n',
     '                        yield (token_type, APOSTROPHES[0] + after)\n'),
]
DEMO = '''
from fog.tokenizers import WordTokenizer
r = list(WordTokenizer()('I’ll go'))
assert [t[1] for t in r] == ['I', '’ll', 'go'], r
'''
