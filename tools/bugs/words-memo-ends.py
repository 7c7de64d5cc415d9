PROPERTY = 'C22'
NEEDS = 'two long texts of the same length, beginning and end, given to one tokenizer'
BREAKS = 'the tokens of the other text'
EDITS = [
    ('fog/tokenizers/words.py',
     '    def __call__(self, string):\n        return self.tokenize(string)',
     "    def __call__(self, string):\n        if len(string) < 48:\n            return self.tokenize(string)\n\n        handle = (len(string), string[:16], string[-16:])\n\n        if getattr(self, 'handle', None) != handle:\n            self.handle = handle\n            self.tokens = list(self.tokenize(string))\n\n        return iter(list(self.tokens))"),
]
DEMO = '''
from fog.tokenizers import WordTokenizer
t = WordTokenizer()
a = 'w' * 20 + ' one two three ' + 'z' * 20
b = 'w' * 20 + ' six two three ' + 'z' * 20
assert list(t(a)) != list(t(b))
'''
