PROPERTY = 'C17'
NEEDS = 'numpy signatures whose length is over 256'
BREAKS = 'only the first positions are compared'
EDITS = [
    ('fog/lsh/minhash.py',
     '    h = len(A)\n\n    for i in range(h):\n',
     '    h = len(A)\n\n    for i in range(min(h, 512)):\n'),
]
DEMO = '''
from fog.lsh import minhash_similarity as f
a = [0] * 1024
b = [0] * 512 + [1] * 512
assert f(a, b) == 0.5, f(a, b)
'''
