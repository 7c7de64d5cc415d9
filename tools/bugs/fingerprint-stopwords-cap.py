PROPERTY = 'C20'
NEEDS = 'more than 100 stopwords'
BREAKS = 'the last stopwords are kept'
EDITS = [
    ('fog/tokenizers/fingerprint.py',
     "for s in stopwords]) + ')',",
     "for s in list(stopwords)[:100]]) + ')',"),
]
DEMO = '''
from fog.tokenizers import FingerprintTokenizer
t = FingerprintTokenizer(stopwords=['stop%i' % i for i in range(150)])
assert t('stop149 hello') == ['hello'], t('stop149 hello')
'''
