PROPERTY = 'C23'
NEEDS = 'a text whose only entities lack their semicolon'
BREAKS = 'they are not decoded'
EDITS = [
    ('fog/tokenizers/words.py',
     '        if self.decode_html_entities:\n',
     "        if self.decode_html_entities and ';' in string:\n"),
]
DEMO = '''
from fog.tokenizers import WordTokenizer
t = WordTokenizer(decode_html_entities=True)
assert [x for _, x in t('tom &amp; jerry')] == ['tom', '&', 'jerry']
assert [x for _, x in t('tom &amp jerry')] == ['tom', '&', 'jerry']
'''
