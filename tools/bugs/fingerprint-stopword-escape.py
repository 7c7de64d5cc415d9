PROPERTY = 'C20'
NEEDS = 'stopwords holding characters that mean something in a regular expression'
BREAKS = 'stopwords drop other words than themselves'
EDITS = [
    ('fog/tokenizers/fingerprint.py',
     "'\\\\b' + re.escape(s) + '\\\\b' for s in stopwords",
     "'\\\\b' + s.strip() + '\\\\b' for s in stopwords"),
]
DEMO = '''
from fog.tokenizers import FingerprintTokenizer
got = FingerprintTokenizer(stopwords=['d.r'])('dor d.r')
assert got == ['dor'], got
'''
