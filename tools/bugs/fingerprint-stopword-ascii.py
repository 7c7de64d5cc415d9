PROPERTY = 'C20'
NEEDS = 'a stop word inside a word, next to an accented letter'
BREAKS = 'the accented letter is deemed a boundary and a part of the word is dropped'
EDITS = [
    ('fog/tokenizers/fingerprint.py',
     '                re.I\n',
     '                re.I | re.A\n'),
]
DEMO = '''
from fog.key.fingerprint import FingerprintingKeyer
r = FingerprintingKeyer(stopwords=['le'])('élève éle')
assert r == 'ele eleve', r
'''
