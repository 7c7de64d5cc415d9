PROPERTY = 'C21'
NEEDS = 'a name ending with i followed by several j or y'
BREAKS = 'more letters than the last two are dropped'
EDITS = [
    ('fog/phonetics/rusalka.py',
     "    (r'i[jy]$', ''),",
     "    (r'i[jy]+$', ''),"),
]
DEMO = '''
from fog.phonetics import rusalka
assert rusalka('tolstoijj') != rusalka('tolsto'), rusalka('tolstoijj')
'''
