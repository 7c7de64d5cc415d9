import re

from vf import gen
from vf.core import enlarged

FILES = ['fog/tokenizers/words.py']
RULE = ('A case is a text made of hostile atoms, or of typical entities whose type and boundaries are known, put next to one another. '
        'Non-trivial: at least two tokens.')
ASSUMPTIONS = ['the type of a number of a single digit is not decided: existing tests have it tagged as punctuation in places and as a number in others',
               'entities are separated by whitespace, or surrounded by punctuation that cannot belong to them nor make a smiley']
REQUIRED = ['twins', 'enlarged_cases', 'fuzz_texts', 'fuzz_tokens', 'gap_space', 'gap_control', 'gap_hyphen', 'concatenations', 'numbers_parsed', 'entity_texts'] + ['entity_long_' + x for x in ('word', 'hashtag', 'mention', 'url', 'number', 'email', 'compound', 'acronym')] + [
    'type_' + t for t in ('word', 'number', 'punct', 'emoji', 'smiley', 'url', 'email', 'hashtag', 'mention')] + [
    'entity_' + t for t in ('word', 'number', 'mention', 'hashtag', 'url', 'email', 'emoji', 'smiley', 'contraction', 'acronym', 'abbreviation',
                            'union', 'negation', 'elision', 'compound', 'ordinal', 'decorated', 'sentence', 'archaic', 'irish', 'punct')]

TYPES = {'word', 'number', 'punct', 'emoji', 'smiley', 'url', 'email', 'hashtag', 'mention'}

ATOMS = list("abcABCÉéœ019.,-_'’#@$!?:;()<>^*/\\|=8dDpP&%~·\u200d\ufe0f \t\n\x01\x1f\x7f\x85\u00a0") + [
    'http://', 'https://', 'a@b.c', 'John@x.net', ':)', ':-)', '<3', '->', '<--', '^^', '🐱', '👨‍👨‍👧‍👧', '⭐️', '🇫🇷', 'é', '²', '½', '一',
    "n't", "'ll", "'s", "'hui", '-t-', '-il', '-elle', 'Mr.', 'etc.', 'O.N.U', 'U.', 'VERY.', "l'", "'tis", '#Tag', '@me', '1.5', '-23',
    '3,4', '٣', 'ß', 'İ', 'ǅ', '\ud800', '5e', 'º']


def skippable(c):
    return c.isspace() or c <= '\x1f'


def fuzz_text(rng, strs, large=False):
    n = rng.choice([1, 2, 3, 5, 8, 13, 30, 90]) if not large else rng.choice([400, 1000, 1025, 2500, 5000])
    r = rng.random()
    if r < 0.55:
        pool = ATOMS
    elif r < 0.75:
        pool = rng.sample(ATOMS, 4)
    elif r < 0.85:
        pool = rng.sample(ATOMS, 6) + [gen.random_char(rng) for _ in range(6)]
    elif r < 0.93 and strs:
        pool = strs + rng.sample(ATOMS, 8) + ['']
    else:
        pool = ["'", '’', 'a', 's', '-', 't', '.', 'B', ' ', '1', ',']
    s = ''.join(rng.choice(pool) for _ in range(n))
    # Long tokens, around the size of lookaheads
    if rng.random() < 0.06:
        k = rng.choice([30, 62, 63, 64, 65, 66, 100, 128, 200])
        s += rng.choice(['a', 'é', '1', 'x@', '-', '_', '<', ',', '#a']) * k + rng.choice(['@b.c', '@', ' ', 'b', '.', "'s", ''])
    return s


def tokens_of(string):
    from fog.tokenizers.words import WordTokenizer
    return list(WordTokenizer()(string))


def conserved(ctx, s, tokens):
    """Finds each token in order, and looks at what lies between them."""
    positions = {0}
    previous = None
    for t in tokens:
        if not (isinstance(t, tuple) and len(t) == 2 and isinstance(t[1], str)):
            ctx.fail('a token is not a pair of a type and a string', {'text': s, 'token': t})
            return
        kind, value = t
        if kind not in TYPES:
            ctx.fail('a token has an unknown type', {'text': s, 'token': t})
            return
        if not value:
            ctx.fail('a token is empty', {'text': s, 'tokens': tokens})
            return
        if any(c.isspace() for c in value):
            ctx.fail('a token holds whitespace', {'text': s, 'token': t})
            return
        # Where the token may end: not always one place, since the hyphen of a union may be followed by another
        ends = set()
        for p in positions:
            hyphens, after = 0, previous
            q = p
            while True:
                if s.startswith(value, q):
                    ends.add(q + len(value))
                if q >= len(s):
                    break
                c = s[q]
                if c == '-' and hyphens == 0 and after == 'word':
                    hyphens += 1
                    ctx.count('gap_hyphen')
                elif not skippable(c):
                    break
                else:
                    ctx.count('gap_space' if c.isspace() else 'gap_control')
                    after = None
                q += 1
        if not ends:
            p = min(positions)
            ctx.fail('some text lies in no token, or a token is not in the text', {'text': s, 'tokens': tokens, 'lost': s[p:p + 20], 'before': t})
            return
        positions = ends
        previous = kind
        ctx.count('type_' + kind)

    def done(rest):
        if rest[:1] == '-' and previous == 'word':
            rest = rest[1:]
        return all(skippable(c) for c in rest)

    if not any(done(s[p:]) for p in positions):
        p = max(positions)
        ctx.fail('some text lies in no token', {'text': s, 'tokens': tokens, 'lost': s[p:p + 20], 'before': None})


def typed(ctx, s, tokens):
    """What a token of a type necessarily looks like."""
    apostrophe = "'" in s or '’' in s
    for kind, value in tokens:
        bad = None
        if kind == 'punct' and len(value) != 1 and not apostrophe:
            bad = 'a punctuation token is more than one character'
        elif kind == 'punct' and value.isalpha():
            bad = 'a letter is tagged as punctuation'
        elif kind == 'url' and not apostrophe and not value.startswith(('http://', 'https://')):
            bad = 'an url does not start as one'
        elif kind == 'email' and not apostrophe and '@' not in value:
            bad = 'an email has no @'
        elif kind == 'mention' and not apostrophe and not re.match(r'^@[A-Za-z0-9_]+$', value):
            bad = 'a mention is not an @ followed by letters, digits and underscores'
        elif kind == 'hashtag' and not apostrophe and not (value[0] in '#$' and value[1:].isalnum() and value[1].isalpha()):
            bad = 'a hashtag is not a sign followed by letters and digits'
        elif kind == 'emoji' and all(ord(c) < 0x80 for c in value):
            bad = 'plain ASCII is tagged as an emoji'
        elif kind == 'number' and not apostrophe and re.search(r'[0-9]', value) and not re.search(r'[^\x00-\x7f]', value):
            try:
                float(value.replace(',', '.'))
                ctx.count('numbers_parsed')
            except ValueError:
                bad = 'a number cannot be parsed'
        elif kind == 'number' and not any(c.isdigit() for c in value) and not apostrophe:
            bad = 'a number without digits'
        elif kind == 'word' and not any(c.isalnum() or c in '-_·' for c in value):
            bad = 'a word without any letter or digit'
        if bad:
            ctx.fail(bad, {'text': s, 'token': (kind, value), 'tokens': tokens})
            return


def fuzz(ctx):
    rng = ctx.rng

    for _ in range(30 if not ctx.enlarge else 3):
        s = fuzz_text(rng, ctx.strs, ctx.enlarge)
        ok, tokens = ctx.call('WordTokenizer', tokens_of, s)
        if not ok:
            continue
        conserved(ctx, s, tokens)
        typed(ctx, s, tokens)
        ctx.count('fuzz_texts')
        ctx.count('fuzz_tokens', len(tokens))
        ctx.observe(s, len(tokens) > 1)

        # Whitespace isolates what stands on its sides
        if rng.random() < 0.6:
            b = fuzz_text(rng, ctx.strs)
            space = rng.choice([' ', '\n', '\t', '\u00a0', '  '])
            ok, left = ctx.call('WordTokenizer', tokens_of, s + space)
            ok2, right = ctx.call('WordTokenizer', tokens_of, b)
            ok3, both = ctx.call('WordTokenizer', tokens_of, s + space + b)
            if ok and ok2 and ok3 and both != left + right:
                ctx.fail('the tokens of a text depend on what stands beyond whitespace', {'left': s, 'right': b, 'space': space, 'got': both, 'expected': left + right})
            ctx.count('concatenations')


# --- Entities -----------------------------------------------------------------

LOWER = 'abcefghijklmnqrstuvwxyzéèêàùçœïñöü'
VOWELS = 'aeiouéèêœ'
CONSONANTS = 'bcfghjklmnqrstvwxz'
UPPER = 'ABCEFGHIJKLMNQRSTUVWXYZÉÇŒ'
EMOJIS = ['🐱', '🙏', '😀', '👨‍👨‍👧‍👧', '⭐️', '⚽️', '🇫🇷', '🤩', '❤️', '👍🏽', '🇬🇧', '🎉', '☀️']
SMILEYS = [':)', ':-)', ':(', ':-(', ';)', ';-)', ':D', ':-D', ':p', ':P', ':-P', '=)', '8)', '8-)', ":'(", ':3', '<3', '^^', '->', '-->', '---->', '<-', '<--', '(:', ':|', ':/', ':-/', '>:(', ':*)', ':]', ':}', ':o)']
PUNCTS = list('.,;!?"«»…“”%&*+~€£§') + ['(', ')', '[', ']', '{', '}', '/', '|', ':', '=', '`', '—', '–', '•']
ENGLISH = ["'ll", "'re", "'m", "'s", "'ve", "'d"]
UNIONS = ['je', 'tu', 'il', 'ils', 'elle', 'elles', 'nous', 'vous', 'on', 'le', 'la', 'les', 'moi', 'toi', 'lui', 'y']
ABBREVIATIONS = ['apt', 'appt', 'dr', 'etc', 'jr', 'm', 'mgr', 'min', 'mr', 'mrs', 'ms', 'mme', 'mlle', 'no', 'p', 'pp', 'prof', 'sr', 'st', 'vs']


def pick(rng, letters, n):
    return ''.join(rng.choice(letters) for _ in range(n))


def word(rng):
    """At least three letters: none starts a smiley, a few happen to be abbreviations."""
    while True:
        n = rng.choice([3, 4, 5, 6, 8, 12, rng.choice([20, 40, 63, 64, 65, 90])])
        r = rng.random()
        if r < 0.6:
            w = pick(rng, LOWER, n)
        elif r < 0.85:
            w = rng.choice(UPPER) + pick(rng, LOWER, n - 1)
        else:
            w = pick(rng, LOWER, n - 1) + rng.choice(LOWER)
            w = w[0] + pick(rng, UPPER, n - 1)
        if w.lower() not in ABBREVIATIONS and w.lower() not in UNIONS and w.lower() not in ('tis', 'twas'):
            return w


def digits(rng, n):
    return pick(rng, '0123456789', n)


def number(rng):
    """At least two digits, neither end an 8: 8 is also the eyes of a smiley."""
    a = rng.choice('12345679') + digits(rng, rng.choice([0, 1, 2, 5, 12])) + rng.choice('12345679')
    r = rng.random()
    if r < 0.3:
        return a
    if r < 0.45:
        return '-' + a
    return rng.choice(['', '-']) + a + rng.choice('.,') + digits(rng, rng.choice([0, 0, 1, 3])) + rng.choice('12345679')


def entity(rng):
    """A kind of entity, its text, and its tokens wherever it stands between spaces."""
    kind = rng.choice(['word', 'word', 'number', 'mention', 'hashtag', 'url', 'email', 'emoji', 'smiley', 'contraction', 'acronym', 'abbreviation',
                       'union', 'negation', 'elision', 'compound', 'ordinal', 'decorated', 'sentence', 'archaic', 'irish', 'punct'])
    W = 'word'
    a = rng.choice(["'", '’'])

    if kind == 'word':
        w = word(rng)
        return kind, w, [(W, w)]

    if kind == 'number':
        n = number(rng)
        r = rng.random()
        if r < 0.25:
            p = rng.choice('.,;!?')
            return kind, n + p, [('number', n), ('punct', p)]
        if r < 0.35:
            return kind, n + '...', [('number', n)] + [('punct', '.')] * 3
        if r < 0.45 and n[0] != '-':
            p = rng.choice('$€£(«')
            if p != '(':
                return kind, p + n, [('punct', p), ('number', n)]
        if r < 0.55 and ('.' in n or ',' in n):
            # A second decimal separator ends the number
            m = rng.choice('12345679') + rng.choice('12345679')
            p = rng.choice('.,')
            return kind, n + p + m, [('number', n), ('punct', p), ('number', m)]
        if r < 0.65:
            w = word(rng)
            p = rng.choice('.,')
            if '.' in n or ',' in n:
                return kind, n + p + w, [('number', n), ('punct', p), (W, w)]
        return kind, n, [('number', n)]

    if kind == 'mention':
        v = '@' + rng.choice('abcxyzABCXYZ019_') + pick(rng, 'abcdefxyzABCXYZ0189_', rng.choice([0, 1, 5, 15, 30]))
        r = rng.random()
        if r < 0.2:
            p = rng.choice('.,;!?:)/')
            return kind, v + p, [('mention', v), ('punct', p)]
        if r < 0.35:
            p = rng.choice(['.', '"', '«', '-'])
            return kind, p + v, [('punct', p), ('mention', v)]
        if r < 0.45:
            u = '@' + pick(rng, 'abcXYZ', 4)
            return kind, v + u, [('mention', v), ('mention', u)]
        if r < 0.55:
            # An accented letter ends it
            w = 'é' + word(rng)
            return kind, v + w, [('mention', v), (W, w)]
        if r < 0.65:
            return kind, rng.choice('lL') + a + v, None
        return kind, v, [('mention', v)]

    if kind == 'hashtag':
        v = rng.choice(['#', '#', '#', '$']) + rng.choice(LOWER + UPPER) + pick(rng, LOWER + UPPER + '0189', rng.choice([0, 1, 4, 15, 30]))
        r = rng.random()
        if r < 0.2:
            p = rng.choice('.,;!?:)')
            return kind, v + p, [('hashtag', v), ('punct', p)]
        if r < 0.35:
            u = '#' + word(rng)
            return kind, v + u, [('hashtag', v), ('hashtag', u)]
        if r < 0.45:
            e = rng.choice(EMOJIS)
            return kind, e + v, [('emoji', e), ('hashtag', v)] if v[0] == '#' else None
        if r < 0.55:
            n = rng.choice('12345679') + digits(rng, 2) + '1'
            return kind, '#' + n, [('punct', '#'), ('number', n)]
        if r < 0.65:
            return kind, v + '_' + 'x', None
        return kind, v, [('hashtag', v)]

    if kind == 'url':
        v = rng.choice(['http://', 'https://']) + rng.choice(['www.', '', 'user:pw@']) + rng.choice(['lemonde.fr', 'a.b.co.uk', 'x', 'localhost:8000', '127.0.0.1'])
        v += rng.choice(['', '/', '/va-t-il', '/a/b.html?x=1&y=2#frag', '/~me/_x-y', '/é', '/a(b)', '/' + word(rng), '/' + 'p' * 80])
        if rng.random() < 0.25:
            return kind, v + ',', [('url', v), ('punct', ',')]
        return kind, v, [('url', v)]

    if kind == 'email':
        local = rng.choice('abcxyzABCXYZ') + pick(rng, 'abcdefxyzABC019_-+', rng.choice([2, 5, 10, 62 - 1]))
        v = local + '@' + rng.choice(['whatever.net', 'x.y.org', 'gmail.com', 'a-b.fr'])
        r = rng.random()
        if r < 0.2:
            return kind, v + ',', [('email', v), ('punct', ',')]
        if r < 0.3:
            return kind, '"' + v, [('punct', '"'), ('email', v)]
        return kind, v, [('email', v)]

    if kind == 'emoji':
        es = [rng.choice(EMOJIS) for _ in range(rng.choice([1, 1, 2, 3, 6]))]
        out = [('emoji', e) for e in es]
        # Consecutive flags cannot be told apart from other pairs of letters
        s = ''.join(es)
        r = rng.random()
        if r < 0.25:
            w = word(rng)
            return kind, w + s, [(W, w)] + out
        if r < 0.45:
            w = word(rng)
            return kind, s + w, out + [(W, w)]
        if r < 0.6:
            p = rng.choice(',;!?')
            return kind, p.join(es) + p, [t for e in es for t in (('emoji', e), ('punct', p))]
        return kind, s, out

    if kind == 'smiley':
        v = rng.choice(SMILEYS)
        r = rng.random()
        if r < 0.15 and v not in ('->', '-->', '---->', '<-', '<--', '^^', ':3', '<3'):
            return kind, v + '.', [('smiley', v), ('punct', '.')]
        return kind, v, [('smiley', v)]

    if kind == 'contraction':
        w = word(rng)
        c = a + rng.choice(ENGLISH)[1:]
        r = rng.random()
        if r < 0.2:
            p = rng.choice('.,!?')
            return kind, w + c + p, [(W, w), (W, c), ('punct', p)]
        if r < 0.3:
            n = rng.choice('123') + '0'
            return kind, n + a + 's', [('number', n), ('number', a + 's')]
        return kind, w + c, [(W, w), (W, c)]

    if kind == 'negation':
        w = pick(rng, LOWER, rng.choice([2, 3, 5])) + 'n' + a + 't'
        return kind, w, [(W, w)]

    if kind == 'elision':
        r = rng.random()
        if r < 0.15:
            w = rng.choice(["aujourd%shui", "Aujourd%shui"]) % a
            return kind, w, [(W, w)]
        left = rng.choice(['l', 'L', 'd', 'D', 'm', 's', 't', 'j', 'qu', 'Qu', 'jusqu', 'lorsqu', 'presqu', 'n', 'c'])
        right = rng.choice(VOWELS + 'AEIOU' + 'h') + pick(rng, 'bcfgklnr', 1) + pick(rng, 'bcfgkaeio', rng.choice([2, 3, 7]))
        if r < 0.3:
            v = rng.choice(['@ange', '#amour', '@a_1'])
            return kind, left + a + v, [(W, left + a), ('mention' if v[0] == '@' else 'hashtag', v)]
        if r < 0.4:
            return kind, left + a + '12', [(W, left + a), ('number', '12')]
        if r < 0.5:
            return kind, left + a + 'O.N.U', [(W, left + a), (W, 'O.N.U')]
        p = rng.choice(['', '.', '!', ','])
        return kind, left + a + right + p, [(W, left + a), (W, right)] + ([('punct', p)] if p else [])

    if kind == 'irish':
        r = rng.random()
        if r < 0.5:
            w = rng.choice('Oo') + a + rng.choice(UPPER) + pick(rng, LOWER, 5)
        else:
            w = rng.choice(['D', 'N', 'M', 'm', 'n']) + a + rng.choice('bcgklnrBCDGLN') + pick(rng, LOWER, 5)
        return kind, w, [(W, w)]

    if kind == 'archaic':
        w = a + rng.choice(['tis', 'twas', 'Tis', 'Twas'])
        if rng.random() < 0.4:
            w2 = word(rng)
            return kind, a + w2 + a, [('punct', a), (W, w2), ('punct', a)]
        return kind, w, [(W, w)]

    if kind == 'acronym':
        letters = [rng.choice('ABCEFGHIJKLMNOQRSTUVWXYZÉ') for _ in range(rng.choice([2, 3, 4, 7]))]
        w = '.'.join(letters) + rng.choice(['', '.'])
        r = rng.random()
        if r < 0.3:
            w2 = rng.choice(UPPER) + pick(rng, UPPER, 3)
            return kind, w2 + '.', [(W, w2), ('punct', '.')]
        if r < 0.45:
            w2 = pick(rng, UPPER, 3)
            w3 = word(rng)
            return kind, w2 + '.' + w3, [(W, w2), ('punct', '.'), (W, w3)] if not w3[-1].isupper() else None
        return kind, w, [(W, w)]

    if kind == 'abbreviation':
        w = rng.choice([str.lower, str.title, lambda x: x[0].upper() + x[1:].lower()])(rng.choice(ABBREVIATIONS))
        if len(w) == 1 and w.isupper():
            w = w.lower()
        return kind, w + '.', [(W, w + '.')]

    if kind == 'union':
        r = rng.random()
        if r < 0.35:
            w = pick(rng, LOWER, 3)
            u = rng.choice(UNIONS)
            return kind, w + '-t-' + u, [(W, w), (W, 't'), (W, u)]
        w = pick(rng, LOWER, rng.choice([3, 4, 7]))
        u = rng.choice(UNIONS)
        p = rng.choice(['', '', '.', '?', ','])
        return kind, w + '-' + u + p, [(W, w), (W, u)] + ([('punct', p)] if p else [])

    if kind == 'compound':
        parts = [word(rng) for _ in range(rng.choice([2, 3, 4]))]
        j = rng.choice(['-', '_', '·'])
        w = j.join(parts)
        r = rng.random()
        if r < 0.2:
            return kind, w + '-', [(W, w), ('punct', '-')]
        if r < 0.35 and j == '-':
            w = w + a + 'œuvre'
            return kind, w, [(W, w)]
        if r < 0.45:
            return kind, '-' + w, [('punct', '-'), (W, w)]
        p = rng.choice(['', '.', ',', '!'])
        return kind, w + p, [(W, w)] + ([('punct', p)] if p else [])

    if kind == 'ordinal':
        w = rng.choice(['7e', '1er', '7eme', '7ème', '7th', '1st', '3rd', '2nd', '11º', '20m2', '747-400', '10_000', '15-20-minute', '7even', 'e11even', 'l33t', '90e', '1a', '12h30'])
        p = rng.choice(['', '', ',', '!', '?', ';'])
        return kind, w + p, [(W, w)] + ([('punct', p)] if p else [])

    if kind == 'decorated':
        w = word(rng)
        o, c = rng.choice([('"', '"'), ('«', '»'), ('“', '”'), ('(', ')'), ('[', ']'), ('{', '}'), ('*', '*'), ('`', '`'), ('€', '%'), ('&', ';')])
        n = rng.choice([1, 1, 1, 2, 3])
        return kind, o * n + w + c * n, [('punct', o)] * n + [(W, w)] + [('punct', c)] * n

    if kind == 'sentence':
        w = word(rng)
        while w[-1].isupper():
            w = word(rng)
        p = rng.choice(['.', ',', ';', '!', '?', '...', '!!', '?!', '…', '",', '),', '.)', '"'])
        r = rng.random()
        if r < 0.3:
            x = word(rng)
            while x[-1].isupper():
                x = word(rng)
            q = rng.choice(['.', ',', '!', '?', '/', '|', '+', '&', ';', '='])
            return kind, w + q + x + p, [(W, w), ('punct', q), (W, x)] + [('punct', z) for z in p]
        if r < 0.4:
            z = rng.choice('\x01\x10\x1f\x02')
            x = word(rng)
            return kind, w + z + x, [(W, w), (W, x)]
        return kind, w + p, [(W, w)] + [('punct', z) for z in p]

    p = rng.choice(PUNCTS + ['-', '#', '@', '$'])
    n = rng.choice([1, 1, 2, 3]) if p in '.!?"%&€§…' else 1
    return kind, p * n, [('punct', p)] * n


def lengthy(rng):
    """An entity of many characters."""
    W = 'word'
    n = rng.choice([65, 100, 129, 141, 200, 257, 281, 300, 513, 1025, 2050, 4100, 8200])
    kind = rng.choice(['word', 'hashtag', 'mention', 'url', 'number', 'email', 'compound', 'acronym'])
    body = pick(rng, LOWER, n)
    ascii = pick(rng, 'abcdefghijklmnopqrstuvwxyz0123456789_', n)
    if kind == 'word':
        return 'long_word', body, [(W, body)]
    if kind == 'hashtag':
        return 'long_hashtag', '#' + body, [('hashtag', '#' + body)]
    if kind == 'mention':
        # NOTE: the first character is a letter of no smiley ('@8', '@o8')
        return 'long_mention', '@m' + ascii, [('mention', '@m' + ascii)]
    if kind == 'url':
        u = rng.choice(['http', 'https']) + '://site.org/' + ascii + rng.choice(['', '?q=' + ascii, '/' + body])
        return 'long_url', u, [('url', u)]
    if kind == 'number':
        u = rng.choice(['', '-']) + pick(rng, '123456789', n) + rng.choice(['', '.5', ',25', '.' + pick(rng, '0123456789', n)])
        return 'long_number', u, [('number', u)]
    if kind == 'email':
        u = pick(rng, 'abcdefghijklmnopqrstuvwxyz', rng.choice([20, 31, 40, 63])) + '@' + pick(rng, 'abcdefghijklmnopqrstuvwxyz', n) + '.com'
        return 'long_email', u, [('email', u)]
    if kind == 'compound':
        u = '-'.join(pick(rng, LOWER, 5) for _ in range(max(4, n // 6)))
        return 'long_compound', u, [(W, u)]
    u = '.'.join(rng.choice('ABCEFGHIJKLMNOQRSTUVWXYZ') for _ in range(n))
    return 'long_acronym', u, [(W, u)]


def entities(ctx):
    rng = ctx.rng

    for _ in range(6):
        parts = []
        many = rng.choice([60, 300, 1000]) if ctx.enlarge else 0
        while len(parts) < many or len(parts) < rng.choice([1, 2, 3, 6, 12]):
            e = lengthy(rng) if rng.random() < (0.1 if ctx.enlarge else 0.01) else entity(rng)
            if e[2] is not None:
                parts.append(e)
        want = []
        s = rng.choice(['', '', ' ', '\n', '\x01', '\t '])
        for i, (kind, text, out) in enumerate(parts):
            want.extend(out)
            s += text + rng.choice([' ', ' ', ' ', '\n', '\t', '  ', '\r\n', '\u00a0', '\u2003', ' \x02 '])
        last = parts[-1]
        if last[0] not in ('abbreviation',) and rng.random() < 0.5:
            s = s.rstrip(' \n\t\r\u00a0\u2003\x02')
        ok, tokens = ctx.call('WordTokenizer', tokens_of, s)
        if not ok:
            continue
        if tokens != want:
            # The first entity that does not come out as known
            i = 0
            while i < min(len(tokens), len(want)) and tokens[i] == want[i]:
                i += 1
            ctx.fail('an entity lost its type or boundaries', {'text': s, 'got': tokens[i:i + 6], 'expected': want[i:i + 6]})
        conserved(ctx, s, tokens)
        for kind, _, _ in parts:
            ctx.count('entity_' + kind)
        ctx.count('entity_texts')
        ctx.observe(s, len(tokens) > 1)


def twins(ctx):
    """Texts of one length, of which one differs from another by one word or character, given to one tokenizer."""
    from fog.tokenizers.words import WordTokenizer
    rng = ctx.rng
    tokenizer = WordTokenizer()

    if rng.random() < 0.5:
        for s in gen.twins(rng, rng.choice(['abc  ', "ab'. -t", LOWER + '   ', '12,. a'])):
            ok, tokens = ctx.call('WordTokenizer', lambda: list(tokenizer(s)))
            if ok:
                conserved(ctx, s, tokens)
                typed(ctx, s, tokens)
            ctx.count('twins')
            ctx.observe(s)
        return

    size = rng.choice([3, 4, 6])
    n = rng.choice([2, 4, 9, 20, 60, 120])

    def draw():
        w = pick(rng, 'bcfghjkq', size)
        return w if w not in ABBREVIATIONS else draw()

    def pick_tagged():
        r = rng.random()
        w = draw()
        return [('hashtag', '#' + w[1:])] if r < 0.1 else [('mention', '@' + w[1:])] if r < 0.2 else [('word', w)]

    base = [pick_tagged()[0] for _ in range(n)]
    for k in range(8):
        tokens = list(base)
        for _ in range(rng.choice([0, 1, 1, 2]) if k else 0):
            p = rng.choice([0, n - 1, n // 2, rng.randrange(n)])
            tokens[p] = pick_tagged()[0]
        s = ' '.join(v for _, v in tokens)
        ok, got = ctx.call('WordTokenizer', lambda: list(tokenizer(s)))
        if ok and got != tokens:
            i = 0
            while i < min(len(tokens), len(got)) and tokens[i] == got[i]:
                i += 1
            ctx.fail('an entity lost its type or boundaries', {'text': s, 'got': got[i:i + 6], 'expected': tokens[i:i + 6]})
        ctx.count('twins')
        ctx.observe(s)


def workloads(tier):
    k = 3 if tier == 'quick' else 60
    return [('fuzz', fuzz, 600 * k), ('entities', entities, 1500 * k), ('twins', twins, 200 * k),
            ('fuzz_large', enlarged(fuzz, 1), 8 * k), ('entities_large', enlarged(entities, 1), 8 * k)]
