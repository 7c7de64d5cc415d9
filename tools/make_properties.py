"""Writes ../properties.jsonl. Run it after editing a property."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'observe_at': observe,
            'hook_needed': None
        }
    })


PYX = 'cfog/metrics/levenshtein.pyx'
CU = 'fog/clustering/utils.py'

prop('C01', 'The compiled Levenshtein distance is exact',
     'For any two strings, the compiled Levenshtein distance is the minimum number of single-character insertions, deletions and substitutions turning one into the other. This holds whatever their lengths, their shared prefixes and suffixes, and the Unicode plane of their characters, and does not depend on which string comes first.',
     ['inputs'], 'every pair of strings over the whole of Unicode, empty, equal, nested or unrelated, from 0 to thousands of characters',
     'The tests compare about a dozen short ASCII pairs; affix trimming, single-character shortcuts and character widths need pairs they do not hold.',
     [PYX, 'cfog/metrics/__init__.py'],
     [('affix trimming, then a one-row dynamic programming table', PYX + ':levenshtein_distance')],
     ['return value of the distance']),

prop('C02', 'The bounded Levenshtein distance is exact up to its bound',
     'For any two strings and any non-negative bound, the bounded Levenshtein distance returns the exact distance when it does not exceed the bound, and the bound plus one otherwise. It therefore never changes the answer to "is the distance at most the bound?".',
     ['inputs', 'configurations'], 'every pair of strings and every bound from 0 to far over both lengths',
     'The tests use a few bounds over a dozen pairs; the banded computation has one behaviour per relation between bound, lengths and the place of the edits.',
     [PYX], [('banded table with early termination', PYX + ':limited_levenshtein_distance')],
     ['return value of the distance']),

prop('C03', 'One-edit predicates decide exactly whether two strings are one edit apart',
     'For any two strings, the linear-time Levenshtein predicate is true exactly when at most one insertion, deletion or substitution separates them. The Damerau variant is true exactly when at most one such edit, or one swap of two adjacent characters, separates them.',
     ['inputs'], 'every pair of strings, with the edit at any position, repeated letters, and near misses of two edits',
     'The tests hold a handful of pairs; the predicates must be right for every position of the edit and every near miss.',
     [PYX], [('two-pointer scan', PYX + ':levenshtein_distance_lte1'), ('two-pointer scan with swaps', PYX + ':damerau_levenshtein_distance_lte1')],
     ['return value of the predicates']),

prop('C04', 'Compiled distances are memory safe, leak nothing and survive allocation failure',
     'No call to a compiled distance reads or writes outside its buffers, has undefined behaviour, or leaves memory allocated after returning, whichever way it returns. When an allocation fails, the call raises a memory error, releases what it had obtained, and later calls still give right answers.',
     ['inputs', 'fault_sequences'], 'every pair of strings and bound, and the failure of any allocation made during a call',
     'Tests see return values only: an out-of-bounds access or a leak changes none of them, and no test makes an allocation fail.',
     [PYX], [('paired allocation and release of two buffers', PYX + ':levenshtein_distance, limited_levenshtein_distance')],
     ['sanitizer reports', 'balance of allocations made by the extension', 'outcome of calls under injected allocation failure']),

prop('C05', 'Pairwise connected components are exactly those of the similarity graph',
     'Pairwise clustering by connected components yields exactly the connected components, of a size within the given bounds, of the graph linking every pair of items deemed similar. Items at exactly the radius are similar, an item belongs to at most one cluster, and the similarity or distance function is applied to the keys when a key function is given.',
     ['inputs', 'configurations'], 'every collection of items (duplicates included), similarity or distance function, radius, key and size bounds',
     'The tests hold one chain of strings and one list of names; components arise from arbitrary graphs.',
     ['fog/clustering/pairwise.py', CU], [('union-find over all pairs', 'fog/clustering/pairwise.py:pairwise_connected_components')],
     ['yielded clusters', 'calls to the similarity function']),

prop('C06', 'Leader and fuzzy pairwise clusters have sound radii and miss nothing',
     'The leader method goes through the items in order and gathers with each free item every later free item similar to it, so that no item is in two clusters and every member is similar to its leader; groups under the minimum size are not reported, and groups over the maximum are dropped and their members freed. The fuzzy method yields, for leaders no two of which are similar, the leader and all of its similar items when their number is within the size bounds, and leaves no such neighbourhood uncovered: each item whose own neighbourhood is within bounds is in some cluster.',
     ['inputs', 'configurations'], 'every collection of items, similarity relation, radius, key and size bounds',
     'The tests hold one chain of strings; order, size bounds and dense relations are not explored.',
     ['fog/clustering/pairwise.py'], [('leader loop', 'fog/clustering/pairwise.py:pairwise_leader'), ('neighbourhood graph', 'fog/clustering/pairwise.py:pairwise_fuzzy_clusters')],
     ['yielded clusters']),

prop('C07', 'Parallel runs give the same clusters as sequential ones',
     'With several processes, pairwise, blocking and quickjoin clustering yield the same clusters as with one process, whatever the chunk size, the number of processes, the way the platform starts processes (fork, forkserver or spawn) and the order in which workers finish. A failure of the similarity function inside a worker is raised to the caller instead of losing pairs, and no worker process outlives the iterator, be it exhausted, failed or closed early.',
     ['schedules', 'inputs', 'fault_sequences'], 'every completion order of the workers, number of processes, start method, chunk size and data, and a failure at any comparison',
     'The tests run one parallel case on one small input and never vary which worker finishes first nor make one fail.',
     ['fog/clustering/pairwise.py', 'fog/clustering/blocking.py', 'fog/clustering/quickjoin.py', CU],
     [('matrix chunks with offsets', CU + ':upper_triangular_matrix_chunk_iter'), ('process pools', 'fog/clustering/pairwise.py, blocking.py, quickjoin.py')],
     ['yielded clusters', 'comparisons logged by the workers', 'child processes after the run']),

prop('C08', 'PassJoin finds every pair within the edit distance threshold',
     'For any collection of distinct strings and threshold of at least 0, PassJoin used with the Levenshtein distance yields the same clusters as comparing every pair of strings: no pair within the threshold is missed and no other pair is linked. This holds whether or not it is asked to sort, for strings shorter than the threshold, and in both cluster modes within the size bounds.',
     ['inputs', 'configurations'], 'every set of strings, threshold, sort option, mode and size bounds',
     'Completeness of the substring selection must hold for every length, threshold and place of the edits; the tests check selected substrings of a few strings and one list of names.',
     ['fog/clustering/passjoin.py', CU], [('segment index and multi-match-aware substring selection', 'fog/clustering/passjoin.py')],
     ['yielded clusters', 'calls to the distance function']),

prop('C09', 'QuickJoin gives the same result as comparing every pair',
     'For any data and true metric, QuickJoin yields the same clusters as comparing every pair against the radius, whatever the block size, seed, pivot balancing and block solver, and whether the metric is given as a distance or as a similarity whose complement is a metric. It terminates on any data, including empty or unsplittable data such as items all at the same distance.',
     ['inputs', 'configurations'], 'every collection of items of a metric space, radius, block size of at least 1, seed, beta of at most 1, solver and mode',
     'Its only test needs a data file that is not in the repository; random pivots give different partitions for each seed.',
     ['fog/clustering/quickjoin.py', CU], [('recursive partition with overlapping windows', 'fog/clustering/quickjoin.py:quickjoin')],
     ['yielded clusters', 'calls to the metric']),

prop('C10', 'All-Pairs, PPJoin and PPJoin+ find exactly the similar pairs',
     'For any collection of records and threshold in (0, 1], each of the three set-join variants yields every pair of records whose Jaccard, Dice or binary cosine similarity of token sets reaches the threshold, once, and no other pair. This holds for each token ordering, with or without a tokenizer, for repeated tokens, repeated records and empty records (which match nothing).',
     ['inputs', 'configurations'], 'every collection of records, threshold, metric, variant, token ordering and tokenizer',
     'Its only test needs a data file that is not in the repository; prefix, positional and suffix filters each discard pairs on conditions few inputs meet.',
     ['fog/clustering/ppjoin.py'], [('prefix, length, positional and suffix filtering', 'fog/clustering/ppjoin.py:ppjoin')],
     ['yielded pairs']),

prop('C11', 'Intersection index clustering is exact',
     'For any items and positive radius, intersection index clustering yields the same clusters as comparing every pair of items by the Jaccard or overlap similarity of their token sets, with pairs exactly at the radius included. Size bounds, key function and both cluster modes apply as for pairwise clustering.',
     ['inputs', 'configurations'], 'every collection of items (strings or token collections, duplicates included), metric, radius, key, mode and size bounds',
     'The test holds one list of strings and one radius.',
     ['fog/clustering/intersection_index.py', CU], [('inverted index counting intersections', 'fog/clustering/intersection_index.py')],
     ['yielded clusters']),

prop('C12', 'Vantage point tree clusters are exact neighbourhoods',
     'For any items, repeated ones included, and true metric, each cluster found with the vantage point tree holds all items within the radius of one of its members, of a size within the bounds. Every item having such a neighbourhood is in at least one cluster, and the items heading clusters are not within the radius of one another.',
     ['inputs', 'configurations'], 'every collection of items of a metric space, radius and size bounds, including less than two items',
     'The test holds one list of names and one radius.',
     ['fog/clustering/vp_tree.py'], [('radius queries on a vantage point tree', 'fog/clustering/vp_tree.py')],
     ['yielded clusters']),

prop('C13', 'Blocking compares exactly the pairs sharing a block',
     'Blocking yields the clusters of the graph linking two items when they share at least one block and are deemed similar; items sharing no block are never compared. With one block or several blocks per item, repeated blocks, either cluster mode and any size bounds, the result is that of comparing all pairs within each block.',
     ['inputs', 'configurations'], 'every collection of distinct items, block function, similarity relation, mode and size bounds',
     'The tests hold two lists and two block functions.',
     ['fog/clustering/blocking.py', CU], [('buckets per block, then pairs', 'fog/clustering/blocking.py:blocking')],
     ['yielded clusters', 'calls to the similarity function']),

prop('C14', 'Key collision groups exactly the items sharing a key',
     'Key collision yields exactly the groups of items sharing a truthy key (or, when several keys are merged, the connected groups of items linked by shared keys) whose size is within the bounds; items without a truthy key are in no group. An item is never repeated in a group because its keys repeat, and items keep their input order within a group of a single key.',
     ['inputs', 'configurations'], 'every collection of items, key or keys function, merge option and size bounds',
     'The tests hold three small lists; repeated keys, falsey keys and bounds are not combined.',
     ['fog/clustering/key_collision.py', CU], [('buckets per key and optional merge', 'fog/clustering/key_collision.py')],
     ['yielded clusters']),

prop('C15', 'Sorted neighbourhood links exactly the similar items within the window',
     'The sorted neighbourhood method yields the clusters of the graph linking similar items less than the window size apart in the data stably sorted by the key, for one key or the union of several passes. The adaptive variant only links similar items, covers the sorted data by consecutive non-overlapping windows none smaller than the requested one except the last, in which it links all similar pairs, and terminates for any data and window.',
     ['inputs', 'configurations'], 'every collection of distinct items (list or iterator), sort key or keys, similarity relation, window and size bounds',
     'The tests hold one list of names with fixed windows; window arithmetic depends on data size, window and similarity pattern.',
     ['fog/clustering/sorted_neighborhood.py', CU], [('sliding window', 'fog/clustering/sorted_neighborhood.py:sorted_neighborhood'), ('enlargement and retrenchment', 'fog/clustering/sorted_neighborhood.py:full_AA_SNM')],
     ['yielded clusters', 'calls to the similarity function']),

prop('C16', 'Approximate clusterers never link dissimilar items and always finish',
     'MinHash and NN-Descent clustering (both variants) only link items whose real similarity reaches the radius: every cluster is connected through such pairs, within the size bounds, and is part of one cluster that comparing all pairs would give. They finish on any data, give the same result when run again with the same seed, group items having identical tokens or all but certain to share a band together and find the other similar pairs at least as often as the bands predict, over seeds (MinHash), and give the exact result when each item may have all others as neighbours (NN-Descent).',
     ['inputs', 'configurations', 'histories'], 'every collection of items, radius, signature size, number of bands, number of neighbours, sampling options and seed',
     'Their tests need a data file that is not in the repository; results depend on random draws.',
     ['fog/clustering/minhash.py', 'fog/clustering/nn_descent.py', CU, 'fog/lsh/minhash.py'],
     [('banding and double check', 'fog/clustering/minhash.py:minhash'), ('heaps of neighbours updated until stable', 'fog/clustering/nn_descent.py')],
     ['yielded clusters', 'calls to the similarity function']),

prop('C17', 'Similarity signatures are functions of the token set and estimate similarity',
     'A MinHash, SuperMinHash or LSB-MinHash signature depends only on the set of tokens, the size and the seed: not on order, repetition, previous signatures nor process; for the first two the signature of a union is the element-wise minimum of signatures. The fraction of agreeing positions estimates the Jaccard similarity of the sets without bias, no position repeating another, simhash is the bitwise majority vote of the token digests, and the comparison functions return exactly the proportion of agreement.',
     ['inputs', 'histories', 'configurations'], 'every token collection, signature size, seed and sequence of previous calls, with and without numpy',
     'The tests compare three texts with one seed and a loose margin.',
     ['fog/lsh/minhash.py', 'fog/lsh/simhash.py', 'fog/lsh/utils.py'],
     [('seeded universal hashes and minima', 'fog/lsh/minhash.py'), ('digest histogram', 'fog/lsh/simhash.py')],
     ['signatures', 'estimated similarities']),

prop('C18', 'Set and vector similarity metrics match their definitions',
     'For any sequences, sets or mappings of non-negative weights (not all null), the Jaccard, weighted Jaccard, Dice, overlap, cosine and binary cosine metrics equal their mathematical definition, are symmetric, lie between 0 and 1, and are 1 for equal non-empty arguments. Repeated elements count only for the weighted and frequency metrics, and sparse norms, dot products and normalizations agree with dense computation. Vectors given to cosine, dot products, norms and normalizations may have negative components, for which the cosine similarity lies between -1 and 1. Mappings given to set metrics stand for the set of their keys, whatever their values.',
     ['inputs'], 'every pair of iterables, sets or mappings of weights, of any size order, empty ones included',
     'The tests hold a few pairs per metric.',
     ['fog/metrics/cosine.py', 'fog/metrics/jaccard.py', 'fog/metrics/dice.py', 'fog/metrics/overlap.py', 'fog/metrics/utils.py'],
     [('iteration over the smaller set', 'fog/metrics/*.py')],
     ['return values']),

prop('C19', 'Levenshtein blocks and keys collide for every close enough pair',
     'Any two strings within one edit share at least one of their distance-1 blocks, and any two strings within two edits share at least one of their distance-2 blocks; the Damerau variants also cover swaps of adjacent characters. Two strings share a distance-1 key exactly when they are within one edit, but for two recorded exceptions (a letter inserted between two equal letters; for Damerau keys, strings two swaps apart). Flags may be any characters absent from the strings.',
     ['inputs', 'configurations'], 'every pair of strings not containing the flag characters, edits at every position, repeated letters, empty and one-letter strings',
     'The tests hold one word and about fifteen variants of it; collisions depend on length modulo 2 or 3 and on where edits fall.',
     ['fog/key/levenshtein.py'], [('wildcard neighbourhood', 'fog/key/levenshtein.py:levenshtein_1d_keys'), ('halves and thirds of the string', 'fog/key/levenshtein.py:levenshtein_1d_blocks, levenshtein_2d_blocks')],
     ['keys and blocks of string pairs']),

prop('C20', 'Fingerprints only depend on normalized tokens',
     'The fingerprint of a string is the sorted set of its lower-cased, transliterated, alphanumeric tokens joined by single spaces: it is unchanged by the case, order, repetition, punctuation and spacing of the tokens, is idempotent, and differs for different token sets. The n-gram fingerprint is likewise the sorted set of the n-grams of the normalized characters, and options (digits, stopwords, splitting characters, minimum size, squeezing) remove or split exactly what they name.',
     ['inputs', 'configurations'], 'every string over Unicode and every combination of options',
     'The tests hold about ten strings.',
     ['fog/tokenizers/fingerprint.py', 'fog/key/fingerprint.py', 'fog/utils.py'],
     [('normalization pipeline', 'fog/tokenizers/fingerprint.py')],
     ['tokens and keys']),

prop('C21', 'Phonetic codes and spelling keys follow their rules on any string',
     'For any string, the Cologne code, omission key and skeleton key are those their published rules give (each letter coded by its context with repeats squeezed and inner vowels dropped; unique consonants in the fixed or appearance order followed by unique vowels), and depend only on the letters, whatever their case, diacritics and the punctuation around them. Rusalka never fails, gives the code of its ordered rules (longer groups of letters before single ones, some only at the start or end of the name), that is lower-case letters without consecutive repeats introduced by doubled letters, no vowel after the first letter, and the same code whatever the case and non-letters.',
     ['inputs'], 'every string over Unicode, empty ones and ones without letters included',
     'The tests hold lists of names with their code; contexts of letters are many.',
     ['fog/phonetics/cologne.py', 'fog/phonetics/rusalka.py', 'fog/key/omission.py', 'fog/key/skeleton.py'],
     [('context-dependent code table', 'fog/phonetics/cologne.py'), ('ordered rules', 'fog/phonetics/rusalka.py'), ('letters sets', 'fog/key/omission.py, skeleton.py')],
     ['codes and keys']),

prop('C22', 'The word tokenizer loses no text and invents none',
     'For any text, the word tokenizer terminates without error and its tokens are non-empty, typed among the documented types, and appear in order and without overlap in the text; what lies between them is only whitespace, control characters and the hyphen of a split union. Tokenizing a text in two parts separated by a space gives the tokens of each part, and typical entities (words, numbers, mentions, hashtags, URLs, emails, emojis, smileys, contractions, acronyms) keep their type and boundaries wherever they stand.',
     ['inputs'], 'every text over Unicode, in particular mixes of apostrophes, hyphens, digits, points, sigils, emojis and control characters',
     'The tests hold about fifty sentences; a state machine over characters has many more transitions.',
     ['fog/tokenizers/words.py'], [('character scanner', 'fog/tokenizers/words.py:WordTokenizer')],
     ['tokens']),

prop('C23', 'Word tokenizer options act as filters of the plain tokens',
     'For any text and any combination of options, the tokens are those of the plain tokenizer on the decoded, transliterated or shortened text, from which exactly the unwanted types, lengths and stop words are removed, and in which words, mentions and hashtags are normalized or retyped as asked. Splitting a hashtag yields consecutive parts which, joined after the hash sign, give the hashtag back, cut where letter case or digits change (but a first letter in lower case may stay with the capitals after it).',
     ['inputs', 'configurations'], 'every text and combination of the fourteen options',
     'The tests try each option alone on one or two sentences.',
     ['fog/tokenizers/words.py'], [('post-processing of tokens', 'fog/tokenizers/words.py:WordTokenizer.tokenize'), ('case state machine', 'fog/tokenizers/words.py:split_hashtag')],
     ['tokens']),

prop('C24', 'N-grams, squeezing and running means match their definitions',
     'For any sequence, the n-grams are its contiguous subsequences of length n in order (the sequence itself when shorter), and joining the n-grams of a string gives it back; n-gram keys are the joined grams plus those of every combination missing few enough grams. Squeezing leaves no consecutive repeated character, except kept roman numerals, and nothing else changes; a running mean equals the mean of the values added and not subtracted, also when combined.',
     ['inputs', 'histories'], 'every string or sequence, gram size, threshold, and history of additions, subtractions and combinations',
     'The tests hold a few examples of each.',
     ['fog/tokenizers/ngrams.py', 'fog/key/misc.py', 'fog/utils.py'],
     [('slices', 'fog/tokenizers/ngrams.py'), ('combinations', 'fog/key/misc.py'), ('back-reference substitution and sums', 'fog/utils.py')],
     ['return values']),

prop('C25', 'The monopartite projection has exactly the edges its metric defines',
     'For any bipartite graph, the projection holds all nodes of the requested part with their attributes, and links two of them exactly when they share a neighbour and their similarity reaches the threshold, with that similarity (or the number of shared neighbours) as weight. The result is the same with and without the topology shortcut and the bipartition check, and graphs which are not bipartite are refused when checked.',
     ['inputs', 'configurations'], 'every bipartite graph with nodes of any hashable type, isolated nodes, positive weights or missing ones, and every metric and threshold',
     'The tests hold one graph and compare rounded weights.',
     ['fog/graph/projection.py', 'fog/metrics/utils.py', 'fog/metrics/cosine.py'],
     [('neighbour vectors and two-hop traversal', 'fog/graph/projection.py')],
     ['projected graph']),

prop('C26', 'Sparsification stops right before a threshold detaching a large component',
     'Floatsam sparsification raises its threshold from the starting one by steps of the learning rate, and returns the last threshold before the step at which the second largest component of the graph without lighter edges reaches the maximum drifter size, or else before the step going over the heaviest edge; it always terminates. The graph is left untouched unless removal is asked, in which case exactly the edges lighter than the returned threshold go; component sizes are those of the graph restricted to the accepted edges.',
     ['inputs', 'configurations'], 'every weighted graph, starting threshold, learning rate, drifter size and weight attribute',
     'There is no test of the sparsification and one of the component sizes.',
     ['fog/graph/sparsification.py', 'fog/graph/utils.py'],
     [('increasing threshold loop', 'fog/graph/sparsification.py'), ('traversal with an edge filter', 'fog/graph/utils.py')],
     ['returned threshold', 'graph after the call']),

prop('C27', 'Cluster evaluation scores and label conversions are exact',
     'The best matching score is the average over truth clusters of the precision, recall and F1 of the predicted cluster maximizing F1, does not depend on the order of clusters or items, is 1 for a perfect match, and refuses empty clusterings or clusters, overlapping predicted clusters and mismatched items, additional predicted items being ignored if allowed. Converting clusters to labels and back gives the same partition, from mappings, sequences or pairs.',
     ['inputs', 'configurations'], 'every truth and predicted partition, additional items and label collections',
     'The tests hold three clusterings.',
     ['fog/evaluation/best_matching.py', 'fog/evaluation/utils.py', 'fog/utils.py'],
     [('index of predicted clusters and candidate counting', 'fog/evaluation/best_matching.py'), ('label dictionaries', 'fog/evaluation/utils.py')],
     ['scores', 'labels and clusters', 'errors raised']),

prop('C28', 'The hash join yields exactly the pairs sharing a key',
     'For any two collections, the hash join yields once each pair of a left and a right item having the same key, or at least one key in common, with the left item first, and nothing else. This holds whichever side is larger and whether sides and keys are lists, other containers or one-shot iterators.',
     ['inputs', 'configurations'], 'every pair of collections, kinds of iterables, key and keys functions',
     'The tests hold two small lists.',
     ['fog/join/hashjoin.py'], [('side swapping by size and nested comparison', 'fog/join/hashjoin.py')],
     ['yielded pairs']),

prop('C29', 'The split and transform commands only change what they are asked to',
     'For any well-formed CSV, splitting a column writes, for each row in order, one row per separated value, with other cells untouched (and the original cell too when a target column is named). Transforming writes each row with the column replaced, or a column added at the end or right after, by the chained operations or the evaluated expression, headers following suit and every other cell unchanged, including quotes, newlines, carriage returns and empty cells.',
     ['inputs', 'configurations'], 'every CSV table with a header, column, separator, operation chain and output option',
     'There is no test of the command line.',
     ['fog/cli/__main__.py', 'fog/cli/split.py', 'fog/cli/transform.py', 'fog/cli/utils.py'],
     [('row by row rewriting', 'fog/cli/split.py, transform.py')],
     ['rows of the output file']),

prop('C30', 'Cluster reports faithfully render the clusters of a column',
     'For any CSV, the cluster command reports exactly the groups of at least two distinct values of the column sharing a fingerprint, with right counts of rows, distinct values and clusters, and values sorted by decreasing number of rows. The TOML report parses and reads back to the exact values, and the HTML report shows each value escaped in its list.',
     ['inputs', 'configurations'], 'every CSV table and column, with values holding quotes, backslashes, control characters, markup and any Unicode',
     'There is no test of the command line.',
     ['fog/cli/cluster.py', 'fog/cli/reporting/toml.py', 'fog/cli/reporting/html.py', 'fog/cli/utils.py', 'fog/clustering/key_collision.py'],
     [('value counting and key collision', 'fog/cli/cluster.py'), ('escaping renderers', 'fog/cli/reporting')],
     ['parsed reports']),

prop('C31', 'Functions leave inputs and global state alone, and accept any iterable',
     'No function changes the collections, graphs (unless edge removal is asked), mappings or records it is given, nor reseeds or replaces the state of the global random generators (only the vantage point tree may draw from them, and depend on what it draws), and calling one any number of times, from any thread or in any order with others, gives the same result. Clusterers give the same result for a list, a tuple, another re-iterable or a one-shot iterator of the same items, and yield members that are the given items themselves.',
     ['inputs', 'histories', 'schedules'], 'every function of the library, call history, thread interleaving and kind of iterable',
     'Tests look at return values of single calls on lists.',
     ['fog/clustering', 'fog/metrics', 'fog/lsh', 'fog/graph', 'fog/key', 'fog/tokenizers', 'fog/join', 'fog/evaluation'],
     [('copies to lists, private generators', 'fog/clustering/*.py, fog/lsh/minhash.py')],
     ['arguments and global generators before and after', 'results across histories and threads']),

prop('C32', 'Impossible requests are refused instead of answered wrongly',
     'Asking a clusterer for an unknown mode or metric, giving neither a similarity nor a distance where one is needed, an unknown token type, contradictory tokenizer options, an unsupported projection metric, projecting a graph that is not bipartite, a simhash size that is not a power of two up to 512, mismatched or empty evaluation clusters, or the mean of nothing raises an error by the time the first result is requested; naming an unknown column, operation, algorithm or report type on the command line makes it fail. None of them yields a result, and the valid requests next to them are never refused.',
     ['configurations'], 'every invalid value of the options that are checked, on any data (of two items or more for nn_descent), and every valid value next to them',
     'The tests assert a couple of these errors.',
     ['fog/clustering/pairwise.py', CU, 'fog/clustering/ppjoin.py', 'fog/clustering/intersection_index.py', 'fog/tokenizers/words.py', 'fog/graph/projection.py', 'fog/lsh/simhash.py', 'fog/evaluation/best_matching.py'],
     [('argument validation', 'the functions listed')],
     ['errors raised']),

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')

with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')

print(len(P), 'properties')
