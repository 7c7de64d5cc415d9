PROPERTY = 'C21'
NEEDS = 'a string of more than 256 letters'
BREAKS = 'the letters only found at the end are missed'
EDITS = [
    ('fog/key/skeleton.py',
     '    for i in range(1, len(string)):\n',
     '    for i in range(1, min(len(string), 256)):\n'),
]
DEMO = '''
from fog.key import skeleton_key
assert skeleton_key('L' + 'a' * 300 + 'R') == 'LRA'
'''
