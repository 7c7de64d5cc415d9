PROPERTY = 'C32'
NEEDS = 'a simhash of 1024 bits'
BREAKS = 'a size over 512 is accepted, though digests are shorter'
EDITS = [
    ('fog/lsh/simhash.py',
     '    assert f <= 512 and not',
     '    assert f <= 1024 and not'),
]
DEMO = '''
from fog.lsh import simhash
try:
    simhash(['a'], f=1024)
except AssertionError:
    pass
else:
    raise SystemExit('accepted')
'''
