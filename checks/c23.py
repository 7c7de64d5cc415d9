import html
import re
from itertools import groupby

from unidecode import unidecode

from checks import c22
from vf import gen
from vf.core import enlarged

FILES = ['fog/tokenizers/words.py']
RULE = ('A case is a text and a combination of options of the tokenizer, whose tokens must be those of the plain tokenizer on the preprocessed '
        'text, filtered and rewritten; or a hashtag to split. Non-trivial: an option changes the tokens, or the hashtag has several parts.')
ASSUMPTIONS = ['types to keep or drop are those of the plain tokens (or of the parts of split hashtags)',
               'a hashtag directly followed by an apostrophe is not split', 'a first letter in lower case may stay with the capital letters following it',
               'hashtags holding characters that are neither upper case, lower case nor decimal digits only have to join back']
REQUIRED = ['enlarged_cases', 'option_texts', 'one_shot_options', 'previous_texts', 'changed_by_options', 'hashtags', 'hashtag_parts', 'hashtag_cut_case', 'hashtag_cut_acronym', 'hashtag_cut_number'] + [
    'opt_' + o for o in ('lower', 'unidecode', 'reduce_words', 'decode_html_entities', 'normalize_mentions', 'normalize_hashtags', 'mentions_as_words',
                         'hashtags_as_words', 'split_hashtags', 'min_word_length', 'max_word_length', 'stoplist', 'keep', 'drop')] + [
    'acted_' + o for o in ('lower', 'unidecode', 'reduce_words', 'decode_html_entities', 'normalize_mentions', 'normalize_hashtags', 'mentions_as_words',
                           'hashtags_as_words', 'split_hashtags', 'min_word_length', 'max_word_length', 'stoplist', 'keep', 'drop')]

TYPES = sorted(c22.TYPES)
EXTRAS = ['Loooool', 'riiiiight', 'aaaa', 'aaaaa', 'ÉÉÉÉÉÉ', '11111', '......', 'aAaAaA', '&eacute;t&eacute;', '&amp;', '&#34;', '&lt;3', '&quot;Oh&quot;', '&nbsp;', '&amp;amp;', '&#x1F431;', '&amp', '&eacute', 'a&ltb', '&#233 ', '&copy2',
          'Élémentaire', 'œuvre', 'straße', 'ÀÉÎ', '#ÉpopéeRusse', '#TDF2018', '#LearnWCFInSix', '@Yomgui_T', '@ABC', '#test', '#Noël25', '$Cash', 'the', 'The', 'THE', 'a', 'A', 'Ⅷ', '’tis', '12', '3.14']


def text(ctx):
    return ctx.spice(draw_text(ctx.rng, ctx.enlarge), 0.07)


def draw_text(rng, large=False):
    r = rng.random()
    if r < 0.25:
        return c22.fuzz_text(rng, [], large)
    parts = []
    for _ in range(rng.choice([1, 3, 6, 10]) if not large else rng.choice([60, 300, 1000])):
        if rng.random() < 0.5:
            parts.append(rng.choice(EXTRAS))
        else:
            parts.append(c22.entity(rng)[1])
    return rng.choice([' ', ' ', '\n', '']).join(parts)


def reduced(s):
    out = []
    for c, g in groupby(s):
        n = len(list(g))
        out.append(c * (3 if n >= 5 and re.match(r'[^\W\d]', c) else n))
    return ''.join(out)


def cut(string):
    """Parts of a hashtag having only plain upper case, lower case and digits."""
    body = string[1:]
    kinds = ['d' if c.isdigit() else 'u' if c.isupper() else 'l' for c in body]
    parts = []
    start = 0
    for i in range(1, len(body)):
        a, b = kinds[i - 1], kinds[i]
        after = kinds[i + 1] if i + 1 < len(body) else None
        if (a == 'd') != (b == 'd') or (a == 'l' and b == 'u') or (a == 'u' and b == 'u' and after == 'l'):
            parts.append(body[start:i])
            start = i
    parts.append(body[start:])
    return [('number' if p[0].isdigit() else 'word', p) for p in parts]


def decided(string):
    body = string[1:]
    if not all(c.isdecimal() or c.isupper() or c.islower() for c in body):
        return False
    # A leading lower case letter followed by a capital letter
    if len(body) > 1 and body[0].islower() and body[1].isupper():
        return False
    return True


def expected(tokens, kw):
    """The tokens of the plain tokenizer, filtered and rewritten."""
    out = []
    acted = set()
    stop = kw.get('stoplist')
    if stop is not None:
        stop = set(stop)
        if kw.get('lower'):
            stop = {s.lower() for s in stop}

    for kind, value in tokens:
        if kw.get('keep') is not None and kind not in set(kw['keep']):
            acted.add('keep')
            continue
        if kw.get('drop') is not None and kind in set(kw['drop']):
            acted.add('drop')
            continue
        before = value
        if kind == 'mention':
            if kw.get('normalize_mentions'):
                value = value.lower()
                if value != before:
                    acted.add('normalize_mentions')
            if kw.get('mentions_as_words'):
                kind, value = 'word', value[1:]
                acted.add('mentions_as_words')
        elif kind == 'hashtag':
            if kw.get('normalize_hashtags'):
                value = unidecode(value.lower())
                if value != before:
                    acted.add('normalize_hashtags')
            if kw.get('hashtags_as_words'):
                kind, value = 'word', value[1:]
                acted.add('hashtags_as_words')
        if kind == 'word':
            if kw.get('lower'):
                if value.lower() != value:
                    acted.add('lower')
                value = value.lower()
            if kw.get('min_word_length') is not None and len(value) < kw['min_word_length']:
                acted.add('min_word_length')
                continue
            if kw.get('max_word_length') is not None and len(value) > kw['max_word_length']:
                acted.add('max_word_length')
                continue
        if stop is not None and value in stop:
            acted.add('stoplist')
            continue
        out.append((kind, value))
    return out, acted


def options(ctx):
    from fog.tokenizers.words import WordTokenizer
    rng = ctx.rng
    plain = WordTokenizer()

    for _ in range(12):
        s = text(ctx)
        kw = {}
        p = rng.choice([0.08, 0.2, 0.5])
        for o in ('lower', 'unidecode', 'reduce_words', 'decode_html_entities', 'normalize_mentions', 'normalize_hashtags', 'mentions_as_words', 'hashtags_as_words', 'split_hashtags'):
            if rng.random() < p:
                kw[o] = True
            elif rng.random() < 0.1:
                kw[o] = False
        if rng.random() < p:
            kw['min_word_length'] = ctx.near(rng.choice([0, 1, 2, 3, 4, 5, 6]), 20, 0.1)
        if rng.random() < p:
            kw['max_word_length'] = ctx.near(rng.choice([1, 2, 3, 4, 5, 8, 12]), 20, 0.1, 1)
        if kw.get('min_word_length') is not None and kw.get('max_word_length') is not None and kw['min_word_length'] >= kw['max_word_length']:
            del kw[rng.choice(['min_word_length', 'max_word_length'])]
        r = rng.random()
        if r < p:
            kw[rng.choice(['keep', 'drop'])] = rng.choice([list, tuple, set, frozenset])(rng.sample(TYPES, rng.choice([0, 1, 2, 3, 8])))

        t = s
        acted = set()
        if kw.get('decode_html_entities'):
            t2 = html.unescape(t)
            if t2 != t:
                acted.add('decode_html_entities')
            t = t2
        if kw.get('unidecode'):
            t2 = unidecode(t)
            if t2 != t:
                acted.add('unidecode')
            t = t2
        if kw.get('reduce_words'):
            t2 = reduced(t)
            if t2 != t:
                acted.add('reduce_words')
            t = t2

        base = list(plain(t))

        if kw.get('split_hashtags'):
            if re.search(r'[#$]\w+[\'’]', t):
                kw['split_hashtags'] = False
            else:
                parts = []
                for token in base:
                    if token[0] == 'hashtag':
                        if not decided(token[1]):
                            parts = None
                            break
                        new = cut(token[1])
                        parts.extend(new)
                        acted.add('split_hashtags')
                    else:
                        parts.append(token)
                if parts is None:
                    kw['split_hashtags'] = False
                    acted.discard('split_hashtags')
                else:
                    base = parts

        if rng.random() < p:
            values = [v for _, v in base]
            stop = rng.sample(values, min(len(values), rng.choice([1, 2, 4]))) + rng.sample(EXTRAS, 2)
            stop = [rng.choice([str.lower, str.upper, str, str])(v) for v in stop]
            kw['stoplist'] = rng.choice([list, tuple, set, frozenset])(stop)
        elif rng.random() < 0.05:
            kw['stoplist'] = []

        want, more = expected(base, kw)
        acted |= more
        witness = {'text': s, 'options': kw}
        given = dict(kw)
        for o in ('keep', 'drop', 'stoplist'):
            if o in given and rng.random() < 0.3:
                given[o] = iter(list(given[o])) if rng.random() < 0.5 else gen.Reiterable(given[o])
                ctx.count('one_shot_options')
        ok, tokenizer = ctx.call('WordTokenizer', WordTokenizer, **given)
        if not ok:
            continue
        # Other texts before, to the end or not, and meanwhile
        aside = None
        if rng.random() < 0.4:
            others = [text(ctx) for _ in range(rng.randint(1, 3))]
            witness['previous texts'] = others
            try:
                for o in others:
                    aside = iter(tokenizer(o))
                    if rng.random() < 0.5:
                        next(aside, None)
                    else:
                        list(aside)
            except Exception as e:
                ctx.fail('WordTokenizer raised %s: %s' % (type(e).__name__, e), witness)
                continue
            ctx.count('previous_texts')

        def tokens():
            out = []
            for token in tokenizer(s):
                out.append(token)
                if aside is not None:
                    next(aside, None)
            return out

        ok, got = ctx.call('WordTokenizer', tokens)
        if ok and got != want:
            ctx.fail('options of the tokenizer are not the named filters of the plain tokens', dict(witness, got=got, expected=want))
        # A tokenizer has no memory
        if rng.random() < 0.2:
            ok, again = ctx.call('WordTokenizer', lambda: list(tokenizer.tokenize(s)))
            if ok and again != got:
                ctx.fail('the same tokenizer gives other tokens the second time', dict(witness, first=got, second=again))
        for o in kw:
            if kw[o] is not False:
                ctx.count('opt_' + o)
        for o in acted:
            ctx.count('acted_' + o)
        if want != list(plain(s)):
            ctx.count('changed_by_options')
        ctx.count('option_texts')
        ctx.observe((s, sorted((k, repr(v)) for k, v in kw.items())), bool(acted))


def hashtags(ctx):
    from fog.tokenizers.words import WordTokenizer
    rng = ctx.rng
    tokenizer = WordTokenizer(split_hashtags=True)

    for _ in range(30):
        r = rng.random()
        sign = rng.choice(['#', '#', '$'])
        if r < 0.5:
            # Made of known parts
            parts = []
            previous = None
            for _ in range(rng.choice([1, 2, 3, 5, 9])):
                kind = rng.choice(['title', 'title', 'acronym', 'number'])
                if kind == previous == 'number' or (kind == 'acronym' and previous == 'acronym'):
                    kind = 'title'
                if kind == 'title':
                    v = rng.choice('ABCÉXYZ') + ''.join(rng.choice('abcéßxyz') for _ in range(rng.choice([1, 2, 3, 4, 5, rng.randint(6, 14)])))
                elif kind == 'acronym':
                    v = ''.join(rng.choice('ABCÉXYZ') for _ in range(rng.choice([1, 2, 3, 4, rng.randint(5, 12)])))
                else:
                    if not parts:
                        continue
                    v = ''.join(rng.choice('0123456789') for _ in range(rng.choice([1, 2, 3, 4, rng.randint(5, 12)])))
                parts.append(v)
                previous = kind
            if not parts:
                continue
            if rng.random() < 0.3:
                parts[0] = parts[0].lower() if len(parts[0]) > 1 else parts[0]
            want = [('number' if x[0].isdigit() else 'word', x) for x in parts]
            tag = sign + ''.join(parts)
            exact = True
        else:
            letters = rng.choice(['aB1', 'abAB12', 'éÉ0x', 'aB1一', 'ǅaB', 'a²B3', 'ßİ1'])
            tag = sign + rng.choice('aBÉz') + ''.join(rng.choice(letters) for _ in range(rng.choice([0, 1, 2, 4, 8, 15])))
            exact = decided(tag)
            want = cut(tag) if exact else None

        after = rng.choice(['', ' ', '!', ' x'])
        ok, got = ctx.call('WordTokenizer', lambda: list(tokenizer(tag + after)))
        if not ok:
            continue
        rest = {'': 0, ' ': 0, '!': 1, ' x': 1}[after]
        got = got[:len(got) - rest] if rest else got
        witness = {'hashtag': tag, 'got': got, 'expected': want}
        if ''.join(v for _, v in got) != tag[1:] or not all(v for _, v in got):
            ctx.fail('the parts of a hashtag do not join back', witness)
        elif any(k not in ('word', 'number') for k, _ in got):
            ctx.fail('a part of a hashtag is neither a word nor a number', witness)
        elif exact and got != want:
            ctx.fail('a hashtag is not cut where letter case or digits change', witness)
        if exact:
            ctx.count('hashtag_parts', len(got))
            for (k1, a), (k2, b) in zip(want, want[1:]):
                if (k1 == 'number') != (k2 == 'number'):
                    ctx.count('hashtag_cut_number')
                elif a[-1].islower():
                    ctx.count('hashtag_cut_case')
                else:
                    ctx.count('hashtag_cut_acronym')
        ctx.count('hashtags')
        ctx.observe(tag, len(got) > 1)


def workloads(tier):
    k = 3 if tier == 'quick' else 60
    return [('options', options, 1500 * k), ('hashtags', hashtags, 500 * k), ('options_large', enlarged(options, 19), 10 * k)]
