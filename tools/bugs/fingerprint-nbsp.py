PROPERTY = 'C20'
NEEDS = 'words separated by a non breaking space'
BREAKS = 'they are joined'
EDITS = [
    ('fog/tokenizers/fingerprint.py',
     "WHITESPACE_RE = re.compile('\\\\s+')\nDIGITS_RE",
     "WHITESPACE_RE = re.compile('[ \\\\t\\\\r\\\\n]+')\nDIGITS_RE"),
]
DEMO = '''
from fog.key import fingerprint as f
assert f('b\\x0ba') == f('a b'), f('b\\x0ba')
assert f('b\\x0ca') == 'a b'
'''
