PROPERTY = 'C24'
NEEDS = 'a running mean emptied by subtraction, then used again'
BREAKS = 'rounding or stale sums survive the emptying'
EDITS = [
    ('fog/utils.py',
     '        self._n -= 1\n        self._sum -= x\n',
     '        self._n -= 1\n\n        if self._n:\n            self._sum -= x\n'),
]
DEMO = '''
from fog.utils import OnlineMean
m = OnlineMean()
m.add(4); m.subtract(4); m.add(2)
assert float(m) == 2, float(m)
'''
