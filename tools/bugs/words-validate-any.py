PROPERTY = 'C32'
NEEDS = 'a list of types of which one is known and another is not'
BREAKS = 'the unknown type is accepted'
EDITS = [
    ('fog/tokenizers/words.py',
     "    for token_type in types:\n        if token_type not in TOKEN_TYPES:\n            raise TypeError('unknown token type: %s' % token_type)\n",
     "    if types and not any(t in TOKEN_TYPES for t in types):\n        raise TypeError('unknown token type: %s' % next(iter(types)))\n"),
]
DEMO = '''
from fog.tokenizers import WordTokenizer
for o in (dict(keep=['word', 'hashtags']), dict(drop=['word', 'hashtags'])):
    try:
        WordTokenizer(**o)
    except TypeError:
        pass
    else:
        assert False
'''
