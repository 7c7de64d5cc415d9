PROPERTY = 'C20'
NEEDS = 'two long strings of the same length, beginning and end'
BREAKS = 'the tokens of the other string'
EDITS = [
    ('fog/tokenizers/fingerprint.py',
     '    def __call__(self, string):\n        return self.tokenize(string)\n',
     "    def __call__(self, string):\n        if len(string) < 48:\n            return self.tokenize(string)\n\n        handle = (len(string), string[:16], string[-16:])\n\n        if getattr(self, 'handle', None) != handle:\n            self.handle = handle\n            self.tokens = self.tokenize(string)\n\n        return list(self.tokens)\n"),
]
DEMO = '''
from fog.tokenizers import FingerprintTokenizer
t = FingerprintTokenizer()
a = 'w' * 20 + ' one two three ' + 'z' * 20
b = 'w' * 20 + ' six two three ' + 'z' * 20
assert t(a) != t(b)
'''
