PROPERTY = 'C20'
NEEDS = 'digits which are not ASCII ones, and digits to drop'
BREAKS = 'they are kept'
EDITS = [
    ('fog/tokenizers/fingerprint.py',
     "DIGITS_RE = re.compile('\\\\d+')",
     "DIGITS_RE = re.compile('[0-9]+')"),
]
DEMO = '''
from fog.tokenizers import FingerprintTokenizer
t = FingerprintTokenizer(keep_digits=False)
assert t('abc ٣٤') == t('abc 34'), t('abc ٣٤')
'''
