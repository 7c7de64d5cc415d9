PROPERTY = 'C27'
NEEDS = 'more than 32,767 clusters'
BREAKS = 'flat labels cannot be made'
EDITS = [
    ('fog/evaluation/utils.py',
     '        flat_labels = [-1] * len(labels)\n',
     "        flat_labels = array('h', [-1]) * len(labels)\n"),
    ('fog/evaluation/utils.py',
     '        return flat_labels\n',
     '        return flat_labels.tolist()\n'),
    ('fog/evaluation/utils.py',
     'from sys import version_info\n',
     'from array import array\nfrom sys import version_info\n'),
]
DEMO = '''
from fog.evaluation import clusters_to_labels
n = 40000
assert clusters_to_labels([[i] for i in range(n)], flat=True) == list(range(n))
'''
