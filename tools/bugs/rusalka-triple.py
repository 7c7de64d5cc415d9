PROPERTY = 'C21'
NEEDS = 'a letter written three times'
BREAKS = 'only pairs of letters are squeezed'
EDITS = [
    ('fog/phonetics/rusalka.py',
     "DUPLICATED = re.compile(r'(.)\\1+')",
     "DUPLICATED = re.compile(r'(.)\\1')"),
]
DEMO = '''
from fog.phonetics import rusalka
assert rusalka('gannna') == rusalka('gana'), rusalka('gannna')
'''
