PROPERTY = 'C24'
NEEDS = 'adding to an empty mean, then adding to the sum'
BREAKS = 'the sum of an empty mean and another one is that other one: adding to it changes the other'
EDITS = [
    ('fog/utils.py',
     '    def __add__(self, other):\n        new = self.__class__()\n',
     '    def __add__(self, other):\n        if self._n == 0 and isinstance(other, OnlineMean):\n            return other\n\n        new = self.__class__()\n'),
]
DEMO = '''
from fog.utils import OnlineMean
a, b = OnlineMean(), OnlineMean()
b.add(4)
c = a + b
c.add(8)
assert float(b) == 4, float(b)
'''
