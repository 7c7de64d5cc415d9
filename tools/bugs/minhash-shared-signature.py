PROPERTY = 'C31'
NEEDS = 'two signatures of the same instance held at once'
BREAKS = 'the first one is overwritten by the second'
EDITS = [
    ('fog/lsh/minhash.py',
     "    __slots__ = ('A', 'B', 'params', 'h', 'numpy')\n",
     "    __slots__ = ('A', 'B', 'params', 'h', 'numpy', 'zeros')\n"),
    ('fog/lsh/minhash.py',
     '        self.h = h\n\n    def create_signature(self, sequence):\n\n        if type(sequence) is str:\n            tokens = set(ord(c) for c in sequence)\n        else:\n            tokens = set(crc32(token) for token in sequence)\n\n        # Using numpy',
     '        self.h = h\n        self.zeros = [0] * h\n\n    def create_signature(self, sequence):\n\n        if type(sequence) is str:\n            tokens = set(ord(c) for c in sequence)\n        else:\n            tokens = set(crc32(token) for token in sequence)\n\n        # Using numpy'),
    ('fog/lsh/minhash.py',
     '        params = self.params\n        signature = [0] * self.h\n\n        if len(tokens) == 0:\n            return signature\n\n        for s in range(self.h):\n            min_hash',
     '        params = self.params\n\n        if len(tokens) == 0:\n            return self.zeros\n\n        signature = [0] * self.h\n\n        for s in range(self.h):\n            min_hash'),
]
DEMO = '''
from fog.lsh import MinHash
m = MinHash(h=4, seed=1)
a = m.create_signature([])
a[0] = 12
assert m.create_signature([]) == [0, 0, 0, 0], m.create_signature([])
'''
