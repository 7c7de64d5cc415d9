PROPERTY = 'C20'
NEEDS = 'digits that are not ASCII'
BREAKS = 'digits are kept although keep_digits is False'
EDITS = [
    ('fog/tokenizers/fingerprint.py',
     "DIGITS_RE = re.compile('\\\\d+')",
     "DIGITS_RE = re.compile('[0-9]+')"),
]
DEMO = '''
from fog.tokenizers import FingerprintTokenizer
got = FingerprintTokenizer(keep_digits=False)('abc ٣٤')
assert got == ['abc'], got
'''
