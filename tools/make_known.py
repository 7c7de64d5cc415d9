"""Rewrites the `fixed` entries of known_findings.jsonl from the fix commits of /repo."""
import json
import os
import subprocess

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
PATH = os.path.join(ROOT, 'known_findings.jsonl')

PROPERTY = {
    'levenshtein_distance looked': 'C01', 'levenshtein distances truncated': 'C01', 'limited_levenshtein_distance leaked': 'C04', 'levenshtein distances dereferenced': 'C04',
    'pairwise_leader crashed': 'C06', 'pairwise_fuzzy_clusters yielded': 'C07', 'key_collision put': 'C14', 'key_collision ignored': 'C14', 'passjoin fuzzy': 'C08',
    'multipass sorted': 'C15', 'adaptive_sorted': 'C15', 'quickjoin missed': 'C09', 'quickjoin crashed': 'C09', 'quickjoin never': 'C09', 'vp_tree clustering': 'C12',
    'ppjoin mixed': 'C10', 'ppjoin crashed': 'C10', 'SuperMinHash truncated': 'C17', 'MinHash with numpy overflowed': 'C17', 'MinHash with numpy reseeded': 'C31',
    'minhash clustering': 'C16', 'nn_descent': 'C16', 'damerau_levenshtein_2d_blocks': 'C19', 'levenshtein_2d_blocks': 'C19', 'fingerprint lost': 'C20', 'fingerprint crashed': 'C20', 'transform --eval': 'C29', 'cologne': 'C21', 'rusalka': 'C21',
    'squeeze': 'C24', 'the word tokenizer': 'C22', 'monopartite_projection': 'C25', 'floatsam': 'C26', 'hashjoin': 'C28', 'fog split': 'C29', 'fog cluster': 'C30', 'fog cli altered': 'C29',
    'parallel blocking': 'C07', 'parallel quickjoin': 'C07', 'parallel clustering': 'C07', 'best_matching': 'C27', 'SuperMinHash gave': 'C31'
}

with open(PATH) as f:
    entries = [json.loads(x) for x in f if x.strip()]

entries = [e for e in entries if e['status'] == 'known']
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'fd0f2c4..HEAD'], stdout=subprocess.PIPE, text=True, check=True).stdout

for line in log.splitlines():
    commit, subject = line.split(' ', 1)
    if not subject.startswith('fix: '):
        continue
    what = subject[5:]
    matches = [k for k in PROPERTY if what.startswith(k)]
    assert len(matches) == 1, (what, matches)
    prop = PROPERTY[matches[0]]
    entries.append({'property': prop, 'status': 'fixed', 'commit': commit, 'what': what, 'note': 'fixed: property=%s %s %s' % (prop, commit, what)})

with open(PATH, 'w') as f:
    for e in entries:
        f.write(json.dumps(e, ensure_ascii=False) + '\n')

print(len(entries), 'entries')
