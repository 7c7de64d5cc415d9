"""
Rewrites many functions of fog without changing what they do, in a copy, and
runs the checks there: none may raise an alarm.

python3 tools/refactor.py [C01 C02 ...]
"""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

EDITS = [
    # pairwise: another loop, enumerations, helper
    ('fog/clustering/pairwise.py', '''        for i in range(n):
            A = keys[i]

            for j in range(i + 1, n):
                B = keys[j]

                if similarity(A, B):
                    graph[i].append(j)
                    graph[j].append(i)
''', '''        for (i, A), (j, B) in combinations(enumerate(keys), 2):
            if similarity(A, B):
                graph[i].append(j)
                graph[j].append(i)
'''),
    ('fog/clustering/pairwise.py', 'from collections import defaultdict\n', 'from collections import defaultdict\nfrom itertools import combinations\n'),
    ('fog/clustering/pairwise.py', '''                if sets.connected(i, j):
                    continue

                if similarity(A, B):
                    sets.union(i, j)
''', '''                if not sets.connected(i, j) and similarity(A, B):
                    sets.union(i, j)
'''),
    ('fog/clustering/pairwise.py', '''    for component in sets.components(min_size=min_size, max_size=max_size):
        yield [data[i] for i in component]
''', '''    components = list(sets.components(min_size=min_size, max_size=max_size))

    for component in reversed(components):
        yield [data[i] for i in reversed(list(component))]
'''),
    # clusters: breadth first
    ('fog/clustering/utils.py', '                neighbor = stack.pop()\n', '                neighbor = stack.pop(0)\n'),
    ('fog/clustering/utils.py', '''    container = set if fuzzy else list

    if fuzzy:
        def add(c, x):
            c.add(x)
    else:
        def add(c, x):
            c.append(x)

    # TODO: later, we'll be able to use SparseSet rather than the graph
    # TODO: in the connected component case, we don't need mutual links
    graph = defaultdict(container)

    for A, B in pairs:
        add(graph[A], B)
        add(graph[B], A)
''', '''    graph = build_graph(pairs, fuzzy)
'''),
    ('fog/clustering/utils.py', '''def clusters_from_pairs(''', '''def build_graph(pairs, fuzzy):
    graph = {}

    for A, B in pairs:
        for x, y in ((A, B), (B, A)):
            if fuzzy:
                graph.setdefault(x, set()).add(y)
            else:
                graph.setdefault(x, []).append(y)

    return graph


def clusters_from_pairs('''),
    # blocking
    ('fog/clustering/blocking.py', '''    for item in data:
        if blocks is None:
            buckets[block(item)].append(item)
        else:
            bs = set(blocks(item))

            for b in bs:
                buckets[b].append(item)
''', '''    get_blocks = (lambda x: (block(x), )) if blocks is None else (lambda x: frozenset(blocks(x)))

    for item in data:
        for b in get_blocks(item):
            buckets[b].append(item)
'''),
    # intersection
    ('fog/clustering/intersection_index.py', '''        shingles = set(item)
''', '''        shingles = frozenset(item)
'''),
    # key collision
    ('fog/clustering/key_collision.py', '''        for cluster in buckets.values():
            if len(cluster) < min_size or len(cluster) > max_size:
                continue
            yield cluster
''', '''        for cluster in sorted(buckets.values(), key=len):
            if min_size <= len(cluster) <= max_size:
                yield cluster
'''),
    # hashjoin: keys computed once
    ('fog/join/hashjoin.py', '''        for a in A:
            key_a = key(a)

            for b in B:
                key_b = key(b)

                if key_a == key_b:
''', '''        keys_b = [key(b) for b in B]

        for a in A:
            key_a = key(a)

            for b, key_b in zip(B, keys_b):
                if key_a == key_b:
'''),
    ('fog/join/hashjoin.py', '''            for b in B:
                key_b = keys(b)

                if len(key_a & set(key_b)) > 0:
''', '''            for b in B:
                if not key_a.isdisjoint(keys(b)):
'''),
    # quickjoin: drawing
    ('fog/clustering/quickjoin.py', '''                p1 = rng.randint(0, N - 1)
                p2 = None

                while p2 is None or p1 == p2:
                    p2 = rng.randint(0, N - 1)

                p1 = S[p1]
                p2 = S[p2]
''', '''                p1, p2 = (S[i] for i in rng.sample(range(N), 2))
'''),
    ('fog/clustering/quickjoin.py', '''    for i in range(n):
        A = S[i]

        for j in range(i + 1, n):
            B = S[j]

            if distance(A, B) <= radius:
                yield (A, B)


def quickjoin_vptree''', '''    yield from (
        (S[i], S[j])
        for i in range(n)
        for j in range(i + 1, n)
        if distance(S[i], S[j]) <= radius
    )


def quickjoin_vptree'''),
    # passjoin: memory freed
    ('fog/clustering/passjoin.py', '''            for key in segments(k, A):
                Ll[key].append(A)
''', '''            for key in segments(k, A):
                Ll[key].append(A)

            if sort:
                for l in [l for l in L if l > s + k]:
                    del L[l]
'''),
    # ppjoin: another order of tokens
    ('fog/clustering/ppjoin.py', 'key=lambda x: (x[1], x[0])))}', 'key=lambda x: (x[1], len(str(x[0])), str(x[0]))))}'),
    ('fog/clustering/ppjoin.py', '''                    if candidate_id not in occurances:
                        occurances[candidate_id] = 1
                    else:
                        occurances[candidate_id] += 1
''', '''                    occurances[candidate_id] = occurances.get(candidate_id, 0) + 1
'''),
    ('fog/clustering/ppjoin.py', 'MAX_DEPTH = 2', 'MAX_DEPTH = 3'),
    # sorted neighborhood
    ('fog/clustering/sorted_neighborhood.py', '''            for i in range(n):
                A = S[i]

                for j in range(i + 1, min(n, i + window)):
                    B = S[j]

                    if similarity(A, B):
                        yield (A, B)
''', '''            for i, A in enumerate(S):
                for B in S[i + 1:i + window]:
                    if similarity(A, B):
                        yield (A, B)
'''),
    # minhash: band keys
    ('fog/clustering/minhash.py', "            band_key = (band, '%'.join(str(n) for n in signature[band:band + rows]))\n", "            band_key = (band, tuple(int(n) for n in signature[band:band + rows]))\n"),
    # other parameters for the same seed
    ('fog/lsh/minhash.py', '''            params = set()

            while len(params) < h:
                params.add((
                    rng.randint(1, MAX_UINT32),
                    rng.randint(0, MAX_UINT32)
                ))

            self.params = list(params)
''', '''            self.params = [
                (rng.randint(1, MAX_UINT32), rng.randint(0, MAX_UINT32))
                for _ in range(h)
            ]
'''),
    ('fog/lsh/minhash.py', '''    hamming = 0
    h = len(A)

    for i in range(h):
        if A[i] != B[i]:
            hamming += 1

    return 1.0 - hamming / h
''', '''    return sum(1 for a, b in zip(A, B) if a == b) / len(A)
'''),
    # metrics
    ('fog/metrics/jaccard.py', '''    I = 0

    for v in A:
        if v in B:
            I += 1
''', '''    I = sum(1 for v in A if v in B)
'''),
    ('fog/metrics/cosine.py', '    return xy / math.sqrt(xx * yy)\n\n\ndef sparse_binary', '    return xy / (math.sqrt(xx) * math.sqrt(yy))\n\n\ndef sparse_binary'),
    ('fog/metrics/cosine.py', '    return math.sqrt(sum(w * w for w in A.values()))', '    return math.fsum(w * w for w in A.values()) ** 0.5'),
    # keys
    ('fog/key/skeleton.py', '''    consonants = set()
    vowels = set()

    for i in range(1, len(string)):
        letter = string[i]

        if letter == first_letter:
            continue

        if letter in VOWELS:
            if letter not in vowels:
                vowels.add(letter)
                key.append(letter)
        else:
            if letter not in consonants:
                consonants.add(letter)
                key.insert(len(key) - len(vowels), letter)

    return ''.join(key)
''', '''    letters = [letter for letter in dict.fromkeys(string) if letter != first_letter]

    key += [letter for letter in letters if letter not in VOWELS]
    key += [letter for letter in letters if letter in VOWELS]

    return ''.join(key)
'''),
    ('fog/key/omission.py', '''    for consonant in CONSONANTS:
        if consonant in letters:
            consonants.append(consonant)
''', '''    consonants.extend(filter(letters.__contains__, CONSONANTS))
'''),
    ('fog/key/misc.py', '''    s = k
    iterator = iter([])

    while s > l:
        s -= 1

        iterator = chain(iterator, combinations(grams, s))

    for g in iterator:
        yield ''.join(g)
''', '''    for s in range(l, k):
        for g in combinations(grams, s):
            yield ''.join(g)
'''),
    # tokenizers
    ('fog/tokenizers/fingerprint.py', '''        tokens = re.split(WHITESPACE_RE, string)

        # Keeping unique tokens
        tokens = set(tokens)

        # Sorting
        tokens = sorted(tokens)

        return tokens

    def __call__(self, string):
        return self.tokenize(string)
''', '''        return sorted(set(WHITESPACE_RE.split(string)))

    def __call__(self, string):
        return self.tokenize(string)
'''),
    ('fog/tokenizers/ngrams.py', '''    limit = lt - n + 1

    for i in range(limit):
        yield tokens[i:i + n]
''', '''        return

    i = 0

    while i + n <= lt:
        yield tokens[i:i + n]
        i += 1
'''),
    ('fog/tokenizers/words.py', '''            # Chomping spaces and ASCII junk
            if c.isspace() or is_ascii_junk(c):
                i += 1
                continue
''', '''            # Chomping spaces and ASCII junk
            if is_ascii_junk(c):
                i += 1
                continue

            if c.isspace():
                while i < l and string[i].isspace():
                    i += 1

                continue
'''),
    ('fog/tokenizers/words.py', '''            if self.keep is not None and token_type not in self.keep:
                continue

            elif self.drop is not None and token_type in self.drop:
                continue

            elif token_type == 'mention':
''', '''            if self.keep is not None and token_type not in self.keep:
                continue

            if self.drop is not None and token_type in self.drop:
                continue

            if token_type == 'mention':
'''),
    # graphs
    ('fog/graph/utils.py', '''    top = nlargest(2, component_sizes(g, edge_filter))

    if len(top) < 2:
        return None

    return top[1]
''', '''    sizes = sorted(component_sizes(g, edge_filter))

    return sizes[-2] if len(sizes) > 1 else None
'''),
    ('fog/graph/utils.py', '            n1 = stack.pop()\n', '            n1 = stack.pop(0)\n'),
    ('fog/graph/projection.py', '''                    if w == 0:
                        continue

                    if threshold is not None and w < threshold:
                        continue

                    monopartite.add_edge(n1, n2, **{weight: w})
''', '''                    if w != 0 and (threshold is None or w >= threshold):
                        monopartite.add_edge(n2, n1, **{weight: w})
'''),
    ('fog/graph/projection.py', '''        return (2 * w) / (norm1 + norm2)
''', '''        return w / ((norm1 + norm2) / 2)
'''),
    # evaluation
    ('fog/evaluation/utils.py', '''        c = clusters.get(l)

        if c is None:
            c = []
            clusters[l] = c

        c.append(i)
''', '''        clusters.setdefault(l, []).append(i)
'''),
    # command line
    ('fog/cli/split.py', '''        for value in values.split(namespace.separator):

            if namespace.target_column is not None:
                writer.writerow(line + [value])
            else:
                line[position] = value
                writer.writerow(line)
''', '''        if namespace.target_column is not None:
            writer.writerows(line + [value] for value in values.split(namespace.separator))
        else:
            before, after = line[:position], line[position + 1:]
            writer.writerows(before + [value] + after for value in values.split(namespace.separator))
'''),
    ('fog/cli/cluster.py', '''    lines = 0

    headers''', '''    headers'''),
    ('fog/cli/cluster.py', '''    for line in reader:
        lines += 1
        values[line[position]] += 1
''', '''    values.update(line[position] for line in reader)
    lines = sum(values.values())
'''),
    ('fog/cli/reporting/toml.py', '''        sorted_values = sorted(cluster, key=lambda v: values[v], reverse=True)
        max_length = len(max(cluster, key=len))
''', '''        sorted_values = sorted(cluster, key=lambda v: -values[v])
        max_length = max(map(len, cluster))
'''),
    # running means
    ('fog/utils.py', '''        new = self.__class__()
        new.__iadd__(self)
        new.__iadd__(other)

        return new
''', '''        new = OnlineMean()
        new += self
        new += other

        return new
'''),
    # phonetics
    ('fog/phonetics/cologne.py', '''    return code[0] + code[1:].replace('0', '')
''', '''    return code[0] + ''.join(c for c in code[1:] if c != '0')
'''),
    # compiled
    ('cfog/metrics/levenshtein.pyx', '''    if LA == 1:
        if A[start] in B[start:start + LB]:
            return LB - 1

        return LB

''', ''),
    ('cfog/metrics/levenshtein.pyx', '''                # Insertion
                if left < current:
                    current = left

                # Deletion
                if above < current:
                    current = above

                current += 1

            vector[j] = current

            j += 1

        if have_max''', '''                current = min(current, left, above) + 1

            vector[j] = current

            j += 1

        if have_max''')
]


def main(names):
    copy = tempfile.mkdtemp(prefix='refactor-')
    try:
        repo = os.path.join(copy, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        for path, old, new in EDITS:
            p = os.path.join(repo, path)
            s = open(p).read()
            if s.count(old) != 1:
                print('%d matches in %s of %r' % (s.count(old), path, old[:80]))
                return 1
            open(p, 'w').write(s.replace(old, new))
        names = names or ['C%02d' % i for i in range(1, 33)]
        bad = 0
        env = dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=os.path.join(copy, 'evidence'))
        for name in names:
            r = subprocess.run([os.path.join(HERE, 'run.py'), name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
            print(name, r.returncode, r.stdout.split('\n')[0] if not r.returncode else r.stdout[-2500:], flush=True)
            bad += r.returncode != 0
        return bad
    finally:
        shutil.rmtree(copy)


sys.exit(main(sys.argv[1:]))
