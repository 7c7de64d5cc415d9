PROPERTY = 'C21'
NEEDS = 'a string whose first letter is a vowel that appears again'
BREAKS = 'the skeleton key repeats its first letter'
EDITS = [
    ('fog/key/skeleton.py',
     '        if letter == first_letter:\n            continue\n',
     '        if letter == first_letter and letter not in VOWELS:\n            continue\n'),
]
DEMO = '''
from fog.key import skeleton_key
got = skeleton_key('abracada')
assert got == 'ABRCD', got
'''
