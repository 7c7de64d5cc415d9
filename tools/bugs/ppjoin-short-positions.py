PROPERTY = 'C10'
NEEDS = 'more than 65,536 records'
BREAKS = 'records past the 65,536th are taken for the first ones'
EDITS = [
    ('fog/clustering/ppjoin.py',
     '                ids.append((k, t))\n',
     '                ids.append((k & 0xffff, t))\n'),
]
DEMO = '''
from fog.clustering import ppjoin
records = [['t%d' % i] for i in range(65600)]
records[65599] = list(records[65598])
r = list(ppjoin(records, 0.8))
assert len(r) == 1 and r[0][0] == r[0][1]
'''
