PROPERTY = 'C24'
NEEDS = 'a mean merged into itself, or into another before being changed'
BREAKS = 'the number of values is not that of both'
EDITS = [
    ('fog/utils.py',
     '        self._n += other._n\n        self._sum += other._sum\n',
     '        self._sum += other._sum\n        self._n = max(self._n, 0) + other._n if other._sum else self._n\n'),
]
DEMO = '''
from fog.utils import OnlineMean
a, b = OnlineMean(), OnlineMean()
a.add(4)
b.add(1)
b.add(-1)
a += b
assert len(a) == 3 and abs(a.peek() - 4 / 3) < 1e-9
'''
