PROPERTY = 'C21'
NEEDS = 'a string of more than 512 letters'
BREAKS = 'the letters only found at the end are missed'
EDITS = [
    ('fog/key/omission.py',
     '    for letter in string:\n',
     '    for letter in string[:512]:\n'),
]
DEMO = '''
from fog.key import omission_key
assert omission_key('L' + 'a' * 600 + 'R') == 'LRA'
'''
