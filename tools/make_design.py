"""Rewrites DESIGN.md: prose of tools/design_*.md, one section per property, table of planted bugs."""
import glob
import importlib
import json
import os
import sys

ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, ROOT)
sys.path.insert(0, '/repo')
sys.dont_write_bytecode = True

NOTES = {
    'C01': 'The extension is compiled from the current `.pyx` and called on every pair of words over three letters up to a length, then on pairs made by edits of one another (shared prefixes and suffixes, rotations, doubled letters, lengths around machine words and around the integers of the source, all Unicode planes). Results are compared online with two independent references. Tests sample a dozen pairs; the exhaustive part reaches every combination of trimmed prefix, suffix and one-character remainder.',
    'C02': 'Same workloads, with bounds at, just under and over the distance, the lengths and their difference, where a banded computation goes wrong.',
    'C03': 'Same, with pairs zero to three edits or swaps apart; the reference is the set of one-edit neighbours, not a distance.',
    'C04': 'Sanitizers decide memory safety and undefined behaviour; heap growth decides leaks; a tracked allocator decides balance, double frees and uninitialized reads, and enumerates failures: each allocation of each explored call fails in turn, alone and with all following ones, after which the same call must answer right.',
    'C05': 'The similarity relation is an arbitrary symmetric graph drawn by the generator (chains, stars, cliques, paths with gaps, random) and shown to the code through a callback, as a similarity, a distance or a predicate, at exactly the radius or not, so that the oracle knows every edge and computes components by itself. Items may share keys, be unhashable to order, equal to none.',
    'C06': 'Same relations. The leader method is compared with a reading of the statement; the fuzzy one by its defining conditions (leaders pairwise dissimilar, full neighbourhoods, no uncovered neighbourhood), which admit any choice of leaders.',
    'C07': 'Real process pools. The callback sleeps according to a schedule drawn by the case, so that workers finish in many orders, and appends each comparison to a log shared by processes: the log shows which process compared what (distinct interleavings are counted). Clusters are compared with the sequential ones, errors raised in a worker must reach the caller, and the children of the process are listed after exhaustion. A separate program runs the same under the spawn and forkserver start methods, where workers inherit nothing from the memory of their parent.',
    'C08': 'All-pairs reference distance. Strings come in families a few edits apart, around lengths where segments change (multiples and neighbours of threshold + 1, shorter than the threshold), with repeated segments.',
    'C09': 'All-pairs oracle over seven metric spaces with many ties (line, plane, strings, bit strings, trees, discrete, subsets), radii reached exactly, small blocks so that recursion, windows and unsplittable parts are all reached; coverage of every branch is in the evidence.',
    'C10': 'All-pairs oracle in exact fractions. The `pairs` workload enumerates sizes and overlaps just reaching the threshold, where prefix lengths, size, position and suffix filters are tight.',
    'C11': 'All-pairs oracle in exact fractions, radii taken among reached similarities.',
    'C12': 'All-pairs oracle; conditions on clusters (each is the full neighbourhood of one of its members, heads pairwise apart, nothing uncovered) admit any order.',
    'C13': 'All-pairs oracle within blocks; the callback is also a monitor: a comparison of two items sharing no block is a violation even if it changes nothing.',
    'C14': 'Reference grouping by dictionary and by union of shared keys.',
    'C15': 'Reference over the stably sorted data; for the adaptive variant every comparison is logged, and windows, links and termination are decided from the trace.',
    'C16': 'Soundness is decided for each reported cluster from the real similarities, and determinism by a second run; completeness only where it is certain (see the assumptions).',
    'C17': 'Metamorphic monitors (permutation, repetition, other instance, after other signatures, in another process, unions), a reference majority vote for simhash, statistical monitors with 7 standard deviations of margin for unbiasedness and independence of positions.',
    'C18': 'Exact rational computation of the definitions, in both orders, over sequences, sets, counters, mappings and iterators.',
    'C19': 'Small strings enumerated, then pairs at each distance; the intersection of the sets of blocks or keys is compared with the reference distances. Two known findings.',
    'C20': 'Reference normalization written from the statement, and metamorphic relations (case, order, repetition, punctuation, spacing, idempotence, difference).',
    'C21': 'References for the three published rules, written from the papers; metamorphic conditions for Rusalka, whose rules are its own.',
    'C22': 'Conservation monitor: tokens are aligned with the text, in order, and what is left must be whitespace, control characters or hyphens. Splitting at a space, then known entities in contexts that cannot change them.',
    'C23': 'Differential monitor between the tokenizer with options and the plain one on the text prepared by the oracle.',
    'C24': 'References by definition; histories of additions, subtractions and merges for running means, in exact arithmetic.',
    'C25': 'Reference projection by pairs of nodes, exact at thresholds; the four combinations of options on the same graph; input graph compared before and after.',
    'C26': 'Reference sweep over thresholds in exact dyadic steps; components by the oracle; the graph compared before and after.',
    'C27': 'Reference scores with ties handled as a set of admissible answers; orders shuffled; conversions back and forth.',
    'C28': 'Nested-loop reference; sides and keys as lists, sets, dictionaries and one-shot iterators; exactly-once counted.',
    'C29': 'The command is run on real files in a scratch directory, and output parsed by a strict reader of the check; files have quotes, separators, newlines, carriage returns, byte order marks and empty cells.',
    'C30': 'Same; reports are parsed back (TOML reader, HTML parser) and compared with groups computed by the check.',
    'C31': 'State monitors: arguments are frozen (deep fingerprints) around each call, generators of `random` and numpy too; calls are repeated after others, interleaved as suspended iterators, and from several threads with a tiny switch interval; clusterers are given every kind of iterable.',
    'C32': 'A table of impossible requests with, next to each, the closest valid one, on generated data: the first must raise before yielding anything, the second must not. The command line likewise, in a scratch directory.'
}


def main():
    with open(os.path.join(ROOT, 'tools/design_head.md')) as f:
        out = [f.read()]
    with open(os.path.join(ROOT, 'properties.jsonl')) as f:
        properties = [json.loads(x) for x in f]

    for p in properties:
        i = p['id']
        m = importlib.import_module('checks.' + i.lower())
        quick = ', '.join('%s %d' % (n, c) for n, _, c in m.workloads('quick'))
        thorough = sum(c for _, _, c in m.workloads('thorough'))
        out.append('### %s. %s\n\n%s\n\n' % (i, p['title'], NOTES[i]))
        out.append('* *Case and bounds:* %s\n' % m.RULE)
        out.append('* *Cost:* quick %s cases (under a minute on 8 cores); thorough %d cases.\n' % (quick, thorough))
        out.append('* *Assumptions:* %s.\n' % '; '.join(m.ASSUMPTIONS))
        out.append('* *Must have been observed:* %s.\n\n' % ', '.join(m.REQUIRED))

    with open(os.path.join(ROOT, 'tools/design_tail.md')) as f:
        out.append(f.read())

    out.append('## Planted bugs\n\nEach is in `seeded/`, written from the text of a property and the code; all pass the existing tests. "At first" tells whether the\ncheck caught it when it was planted, or had to be strengthened.\n\n')
    out.append('| bug | property | at first | now | needs |\n|---|---|---|---|---|\n')
    with open(os.path.join(ROOT, 'tools/outcomes.json')) as f:
        outcomes = json.load(f)
    for path in sorted(glob.glob(os.path.join(ROOT, 'seeded/*/meta.json'))):
        name = os.path.basename(os.path.dirname(path))
        with open(path) as f:
            meta = json.load(f)
        first = 'missed' if name in outcomes['missed_at_first'] else 'caught'
        now = 'missed' if name in outcomes['missed'] else 'caught'
        out.append('| %s | %s | %s | %s | %s |\n' % (name, meta['property'], first, now, meta['needs'].replace('|', '\\|').replace('\n', ' ')))

    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write(''.join(out))


main()
