PROPERTY = 'C01'
NEEDS = 'two strings whose differing middles are three characters long and one is the other shifted by one character'
BREAKS = 'levenshtein_distance counts a substitution per character of a short remainder, and misses the cheaper insertion and deletion'
EDITS = [
    ('cfog/metrics/levenshtein.pyx',
     '    if LA == 0:\n        return LB\n\n    if LA == 1:',
     '    # What remains is too short for anything else than substitutions\n    if LA == 0 or (LA == LB and LA <= 3):\n        return LB\n\n    if LA == 1:'),
]
DEMO = '''
from cfog.metrics import levenshtein_distance
assert levenshtein_distance('xabcy', 'xbcay') == 2
assert levenshtein_distance('abc', 'bcd') == 2
'''
