from unidecode import unidecode

from vf import gen
from vf.core import enlarged

FILES = ['fog/tokenizers/fingerprint.py', 'fog/key/fingerprint.py', 'fog/utils.py']
RULE = ('A case is a string with options of the fingerprint, compared with a reference normalization and with variants of the string (case, '
        'order, repetition, punctuation, spacing). Non-trivial: at least one alphanumeric character remains.')
ASSUMPTIONS = ['transliteration is that of the unidecode library', 'tokens of at most min_token_size characters are dropped (as pinned by the tests)',
               'with stop words or a minimum size, texts are alphanumeric words separated by spaces or punctuation and a space']
REQUIRED = ['twins', 'many_stopwords', 'enlarged_cases', 'plain_cases', 'ngram_cases', 'option_cases', 'variants', 'previous_texts', 'idempotence', 'stopword_removed', 'stopword_inside_word_kept', 'digits_removed', 'other_digits_removed', 'punctuated_stopwords',
            'small_tokens_removed', 'split_cases', 'empty_options', 'squeezed', 'empty_results', 'transliterated']

LETTERS = 'abcdefghijklmnopqrstuvwxyz'
PUNCTUATION = '!"#%&\'()*,-./:;?@[]_{}+=<>~^|\\`$'


def clean(s):
    s = unidecode(s.lower()).lower()
    return ''.join(c for c in s if (c.isascii() and c.isalnum()) or c.isspace())


def squeezed(t):
    return ''.join(c for i, c in enumerate(t) if i == 0 or c != t[i - 1])


def reference(s):
    return sorted(set(clean(s).split()))


def text(ctx):
    return ctx.spice(draw_text(ctx))


def draw_text(ctx):
    rng = ctx.rng
    r = rng.random()

    if r < 0.03:
        return ' '.join(word(rng) for _ in range(ctx.near(rng.randint(6, 60), 120, 0.4)))

    if r < 0.35:
        words = [word(rng) for _ in range(rng.randint(0, 6))]
        return rng.choice([' ', '  ', ', ', ' - ', '\t', '\n']).join(words)
    if r < 0.7:
        return gen.string(rng, rng.randint(0, 20), 'abAB  \t\n.,-\'éÉœßŒøł0129\u00a0\u2019')
    if r < 0.85:
        return ''.join(gen.random_char(rng) + rng.choice(['', ' ']) for _ in range(rng.randint(0, 12)))

    return gen.string(rng, rng.randint(0, 15), gen.alphabet(rng) + ' ')


def word(rng, digits=True):
    letters = rng.choice([LETTERS, 'ab', 'éàüñöç' + LETTERS, LETTERS.upper()]) + ('0123456789' if digits and rng.random() < 0.3 else '')
    if digits and rng.random() < 0.06:
        letters += '\u0663\u0664\u096b\uff17'
    w = ''.join(rng.choice(letters) for _ in range(rng.choice([1, 1, 2, 3, 3, 4, 6])))
    return w[0].upper() + w[1:] if rng.random() < 0.3 else w


def plain(ctx):
    from fog.key import fingerprint
    from fog.tokenizers import FingerprintTokenizer
    rng = ctx.rng

    for _ in range(20):
        s = text(ctx)
        want = reference(s)
        ok, key = ctx.call('fingerprint', fingerprint, s)
        if not ok:
            return
        if key != ' '.join(want):
            ctx.fail('the fingerprint is not the sorted set of the normalized tokens', {'string': s, 'got': key, 'expected': ' '.join(want)})
            return
        ok, tokens = ctx.call('FingerprintTokenizer', lambda: list(FingerprintTokenizer()(s)))
        if ok and [t for t in tokens if t] != want:
            ctx.fail('the fingerprint tokens are not the sorted set of the normalized tokens', {'string': s, 'got': tokens, 'expected': want})
        ok, again = ctx.call('fingerprint', fingerprint, key)
        if ok and again != key:
            ctx.fail('the fingerprint is not idempotent', {'string': s, 'once': key, 'twice': again})
        ctx.count('idempotence')
        ctx.count('plain_cases')
        if not want:
            ctx.count('empty_results')
        if any(ord(c) > 127 for c in s) and want:
            ctx.count('transliterated')
        ctx.observe(s, bool(want))


def twins(ctx):
    """Texts of one length, of which one differs from another by one character, given to the same tokenizers."""
    from fog.key import fingerprint, ngrams_fingerprint
    from fog.tokenizers import FingerprintTokenizer, NgramsFingerprintTokenizer
    rng = ctx.rng
    tokenizer, grams_tokenizer = FingerprintTokenizer(), NgramsFingerprintTokenizer()
    n = rng.choice([1, 2, 3])
    previous = []

    for s in gen.twins(rng, rng.choice(['abc  ', LETTERS + '     ', 'aé0 ,-B'])):
        want = reference(s)
        x = ''.join(clean(s).split())
        wanted = sorted(set(x[i:i + n] for i in range(len(x) - n + 1))) if len(x) >= n else [x]
        for name, f, expected in (('fingerprint', lambda: fingerprint(s), ' '.join(want)),
                                  ('FingerprintTokenizer', lambda: [t for t in tokenizer(s) if t], want),
                                  ('NgramsFingerprintTokenizer', lambda: [t for t in grams_tokenizer(n, s) if t], [t for t in wanted if t]),
                                  ('ngrams_fingerprint', lambda: ngrams_fingerprint(n, s), ''.join(wanted))):
            ok, got = ctx.call(name, f)
            if ok and got != expected:
                ctx.fail('%s: not the sorted set of the normalized tokens' % name, {'string': s, 'n': n, 'previous texts': previous, 'got': got, 'expected': expected})
        previous.append(s)
        ctx.count('twins')
        ctx.observe(s, bool(want))


def variants(ctx):
    from fog.key import fingerprint
    rng = ctx.rng

    for _ in range(10):
        words = [word(rng) for _ in range(ctx.near(rng.randint(1, 6), 60, 0.06))]
        base = fingerprint(' '.join(words))
        w = [x for x in words]
        w += [rng.choice(words) for _ in range(rng.randint(0, 3))]
        rng.shuffle(w)
        out = []
        for x in w:
            x = rng.choice([str.upper, str.lower, str.title, str.swapcase, lambda y: y])(x)
            if rng.random() < 0.5:
                x = rng.choice(PUNCTUATION) * rng.randint(1, 3) + x
            if rng.random() < 0.5:
                x = x + rng.choice(PUNCTUATION)
            if rng.random() < 0.2 and len(x) > 1:
                p = rng.randint(1, len(x) - 1)
                x = x[:p] + rng.choice(PUNCTUATION) + x[p:]
            out.append(x)
        s = rng.choice(['', ' ', '\n']) + rng.choice([' ', '   ', '\t', ' \n ', ' -- ']).join(out) + rng.choice(['', ' ', '!'])
        ok, got = ctx.call('fingerprint', fingerprint, s)
        if ok and got != base:
            ctx.fail('the fingerprint changes with case, order, repetition, punctuation or spacing', {'words': words, 'variant': s, 'got': got, 'expected': base})
        # Another set of tokens
        other = words + ['zzz' + str(rng.randint(0, 99))]
        if fingerprint(' '.join(other)) == base:
            ctx.fail('two different sets of tokens have the same fingerprint', {'one': words, 'other': other})
        ctx.count('variants')
        ctx.observe((tuple(words), s))


def grams(ctx):
    from fog.key import ngrams_fingerprint
    from fog.tokenizers import NgramsFingerprintTokenizer
    rng = ctx.rng

    for _ in range(12):
        s = text(ctx)
        n = ctx.near(rng.choice([1, 2, 2, 3, 4, 6]), 20, 0.05, 1)
        squeeze = rng.random() < 0.2
        x = clean(s).strip()
        if squeeze:
            x = squeezed(x)
        x = ''.join(x.split())
        want = sorted(set(x[i:i + n] for i in range(len(x) - n + 1))) if len(x) >= n else [x]
        f = NgramsFingerprintTokenizer(squeeze=True) if squeeze else NgramsFingerprintTokenizer()
        ok, tokens = ctx.call('NgramsFingerprintTokenizer', lambda: list(f(n, s)))
        if ok and [t for t in tokens if t] != [t for t in want if t]:
            ctx.fail('the n-gram fingerprint is not the sorted set of n-grams', {'string': s, 'n': n, 'squeeze': squeeze, 'got': tokens, 'expected': want})
        if not squeeze:
            ok, key = ctx.call('ngrams_fingerprint', ngrams_fingerprint, n, s)
            if ok and key != ''.join(want):
                ctx.fail('the n-gram fingerprint is not the joined sorted set of n-grams', {'string': s, 'n': n, 'got': key, 'expected': ''.join(want)})
        ctx.count('ngram_cases')
        ctx.observe((s, n, squeeze), bool(x))


def options(ctx):
    """Words separated by spaces, where what each option does is unambiguous."""
    from fog.tokenizers import FingerprintTokenizer, NgramsFingerprintTokenizer
    from fog.key import fingerprint
    rng = ctx.rng

    for _ in range(12):
        words = [word(rng) for _ in range(ctx.near(rng.randint(0, 8), 60, 0.06))]
        kw = {}
        split = None
        stop = None

        if rng.random() < 0.4 and words:
            stop = rng.sample(words, min(len(words), rng.randint(1, 2))) + [word(rng)]
            # Words holding a stop word, which must stay
            words += [stop[0] + 'x', 'x' + stop[0]]
            if ctx.enlarge and rng.random() < 0.5:
                # Many stop words, of which some only at the end
                stop = [word(rng) for _ in range(rng.choice([70, 101, 130, 260, 520, 1030]))] + stop
                ctx.count('many_stopwords')
            stop = [rng.choice([str.lower, str.upper, lambda y: y])(x) for x in stop]
            # Case folding of letters without a simple counterpart is ambiguous
            kw['stopwords'] = rng.choice([list, tuple, set])(stop)
            rng.shuffle(words)
            ctx.count('stopword_inside_word_kept')
        if rng.random() < 0.35:
            kw['keep_digits'] = False
        if rng.random() < 0.35:
            kw['min_token_size'] = rng.choice([1, 2, 2, 3, 0])
        if rng.random() < 0.3:
            kw['squeeze'] = True
        if rng.random() < 0.3:
            split = rng.choice(['-', '|', '^-]', '.', '\\', '-_/', '§'])
            kw['split'] = rng.choice([list, str])(split)
            ctx.count('split_cases')
        if rng.random() < 0.1:
            # Nothing to drop, nothing to split on
            for name in rng.sample(['stopwords', 'split'], rng.randint(1, 2)):
                if name not in kw:
                    kw[name] = rng.choice([list, tuple, str])()
                    ctx.count('empty_options')

        out = []
        lowered = set(y.lower() for y in stop or ())

        for w in words:
            x = w
            if stop and x.lower() in lowered:
                ctx.count('stopword_removed')
                continue
            if kw.get('keep_digits') is False:
                y = ''.join(c for c in x if not c.isdigit())
                if y != x:
                    ctx.count('digits_removed')
                    if any(ord(c) > 127 and c.isdigit() for c in x):
                        ctx.count('other_digits_removed')
                x = y
            if kw.get('min_token_size', 1) > 1 and len(x.lower()) <= kw['min_token_size']:
                ctx.count('small_tokens_removed')
                continue
            x = clean(x)
            if kw.get('squeeze'):
                if squeezed(x) != x:
                    ctx.count('squeezed')
                x = squeezed(x)
            if x:
                out.append(x)

        separators = [' ', ' ', '  ', ', ', '\t'] if split is None else [' ', rng.choice(split), ' ' + rng.choice(split) + ' ']
        s = words[0] if words else ''
        for w in words[1:]:
            s += rng.choice(separators) + w

        witness = {'string': s, 'options': kw}
        want = sorted(set(out))
        def run():
            tokenizer = FingerprintTokenizer(**kw)
            for o in others:
                list(tokenizer(o))
            return tokenizer(s)

        def run_grams(n):
            tokenizer = NgramsFingerprintTokenizer(**kw)
            for o in others:
                list(tokenizer(n, o))
            return tokenizer(n, s)

        # Other texts before
        others = [text(ctx) for _ in range(rng.choice([0, 0, 1, 3]))]
        if others:
            witness['previous texts'] = others
            ctx.count('previous_texts')
        ok, tokens = ctx.call('FingerprintTokenizer', run)

        if ok and [t for t in tokens if t] != want:
            ctx.fail('options of the fingerprint do not remove or split exactly what they name', dict(witness, got=tokens, expected=want))

        # The n-gram variant has the same options
        if not kw.get('squeeze'):
            n = rng.choice([1, 2, 3])
            kept = ''.join(out)
            grams_ = sorted(set(kept[i:i + n] for i in range(len(kept) - n + 1))) if len(kept) >= n else [kept]
            ok, tokens = ctx.call('NgramsFingerprintTokenizer', lambda: run_grams(n))
            if ok and [t for t in tokens if t] != [t for t in grams_ if t]:
                ctx.fail('options of the n-gram fingerprint do not remove or split exactly what they name', dict(witness, n=n, got=tokens, expected=grams_))

        ctx.count('option_cases')
        ctx.observe((s, sorted((k, repr(v)) for k, v in kw.items())), bool(want))


def punctuated(ctx):
    """Stop words holding characters that mean something in a regular expression."""
    from fog.tokenizers import FingerprintTokenizer, NgramsFingerprintTokenizer
    rng = ctx.rng

    for _ in range(12):
        halves = [gen.string(rng, rng.randint(1, 3), 'qrstuvw') for _ in range(6)]
        stop = []
        for i in range(rng.randint(1, 3)):
            stop.append(rng.choice(halves) + rng.choice(['.', '+', '*', '|', '?', '.*', '[q]', '(', ')', '\\', '^', '$', '\'', '-', '{2}']) + rng.choice(halves))
        words = []
        for _ in range(rng.randint(1, 8)):
            r = rng.random()
            s = rng.choice(stop)
            if r < 0.35:
                words.append(s)
            elif r < 0.6:
                # What the stop word would match, were it a regular expression
                words.append(''.join(c if c.isalnum() else rng.choice('xyz') for c in s))
            elif r < 0.8:
                words.append('y' + rng.choice(halves) + 'y')
            else:
                words.append(rng.choice(halves) + rng.choice(halves))
        kept = [w for w in words if w.lower() not in stop]
        s = ' '.join(rng.choice([str, str.upper, str.title])(w) for w in words)
        want = sorted(set(x for x in map(clean, kept) if x))
        witness = {'string': s, 'stopwords': stop}
        kind = rng.choice([list, tuple, set, frozenset])
        ok, tokens = ctx.call('FingerprintTokenizer', lambda: FingerprintTokenizer(stopwords=kind(stop))(s))
        if ok and [t for t in tokens if t] != want:
            ctx.fail('stop words do not remove exactly themselves', dict(witness, got=tokens, expected=want))
        n = rng.choice([1, 2, 3])
        x = ''.join(map(clean, kept))
        grams_ = sorted(set(x[i:i + n] for i in range(len(x) - n + 1))) if len(x) >= n else [x]
        ok, tokens = ctx.call('NgramsFingerprintTokenizer', lambda: NgramsFingerprintTokenizer(stopwords=kind(stop))(n, s))
        if ok and [t for t in tokens if t] != [t for t in grams_ if t]:
            ctx.fail('stop words of the n-gram fingerprint do not remove exactly themselves', dict(witness, n=n, got=tokens, expected=grams_))
        ctx.count('punctuated_stopwords')
        ctx.observe((s, stop), len(kept) < len(words))


def workloads(tier):
    k = 3 if tier == 'quick' else 60
    return [('plain', plain, 800 * k), ('twins', twins, 150 * k), ('variants', variants, 600 * k), ('grams', grams, 600 * k), ('options', options, 800 * k), ('punctuated', punctuated, 300 * k),
            ('plain_large', enlarged(plain, 1100), 8 * k), ('variants_large', enlarged(variants, 1100), 8 * k), ('options_large', enlarged(options, 600), 8 * k)]
