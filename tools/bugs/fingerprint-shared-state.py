PROPERTY = 'C31'
NEEDS = 'one fingerprint tokenizer used by several threads at once'
BREAKS = 'threads mix up their strings'
EDITS = [
    ('fog/tokenizers/fingerprint.py',
     '        # Trimming\n        string = string.strip()\n\n        # Squeezing\n        if self.squeeze:\n            string = squeeze_string(string)\n\n        # Tokenizing\n        tokens = re.split(WHITESPACE_RE, string)\n',
     '        # Trimming\n        self.normalized = string.strip()\n\n        # Squeezing\n        if self.squeeze:\n            self.normalized = squeeze_string(self.normalized)\n\n        # Tokenizing\n        tokens = re.split(WHITESPACE_RE, self.normalized)\n'),
]
DEMO = '''
import sys, threading, time
from fog.tokenizers import FingerprintTokenizer
mon = sys.monitoring
mon.use_tool_id(4, 'demo')
def slow(code, line):
    if 'fingerprint' in code.co_filename:
        time.sleep(0.0002)
mon.register_callback(4, mon.events.LINE, slow)
mon.set_events(4, mon.events.LINE)
f = FingerprintTokenizer(squeeze=True)
bad = []
def run(w):
    for _ in range(60):
        got = list(f(w))
        if got != [w]:
            bad.append((w, got))
            return
ts = [threading.Thread(target=run, args=(w,)) for w in ('alpho', 'beta', 'gama', 'delta')]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, bad[:3]
'''
