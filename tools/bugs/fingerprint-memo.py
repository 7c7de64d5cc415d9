PROPERTY = 'C31'
NEEDS = 'a caller changing the list of tokens it was given, then tokenizing the same string again'
BREAKS = 'the second list is the changed one'
EDITS = [
    ('fog/tokenizers/fingerprint.py',
     '        self.keep_digits = keep_digits\n        self.squeeze = squeeze\n',
     '        self.keep_digits = keep_digits\n        self.squeeze = squeeze\n        self.memo = {}\n'),
    ('fog/tokenizers/fingerprint.py',
     "    def __call__(self, string):\n        return self.tokenize(string)\n\n    def key(self, string):\n        return ' '.join(self.tokenize(string))\n\n\nclass Ngrams",
     "    def __call__(self, string):\n        tokens = self.memo.get(string)\n\n        if tokens is None:\n            tokens = self.memo[string] = self.tokenize(string)\n\n        return tokens\n\n    def key(self, string):\n        return ' '.join(self.tokenize(string))\n\n\nclass Ngrams"),
]
DEMO = '''
from fog.tokenizers import FingerprintTokenizer
f = FingerprintTokenizer()
t = f('The cat')
t.append('dog')
assert f('The cat') == ['cat', 'the'], f('The cat')
'''
