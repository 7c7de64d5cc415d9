PROPERTY = 'C21'
NEEDS = 'two strings of more than 64 characters having the same beginning'
BREAKS = 'the key of the other string'
EDITS = [
    ('fog/key/skeleton.py',
     '    # Deburring\n    string = unidecode(string)\n\n    # Normalizing case\n    string = string.upper()\n',
     '    # Long strings are known by their beginning\n    handle = string[:64]\n\n    if len(string) > 64:\n        if handle not in LONG:\n            LONG[handle] = compute(string)\n\n        return LONG[handle]\n\n    return compute(string)\n\n\nLONG = {}\n\n\ndef compute(string):\n\n    # Deburring\n    string = unidecode(string)\n\n    # Normalizing case\n    string = string.upper()\n'),
]
DEMO = '''
from fog.key import skeleton_key
a = 'a' * 70 + 'b'
b = 'a' * 70 + 'c'
assert skeleton_key(a) == 'AB' and skeleton_key(b) == 'AC'
'''
