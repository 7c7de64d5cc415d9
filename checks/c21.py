from unidecode import unidecode

from vf import gen
from vf.core import enlarged

FILES = ['fog/phonetics/cologne.py', 'fog/phonetics/rusalka.py', 'fog/key/omission.py', 'fog/key/skeleton.py', 'fog/utils.py']
RULE = ('A case is a string, whose codes and keys are compared with references written from the published rules, and with those of variants of '
        'the string (case, diacritics, punctuation around). Non-trivial: at least two letters.')
ASSUMPTIONS = ['transliteration is that of the unidecode library', 'the rules of rusalka are those of its table at the pinned commit', 'rusalka is not judged on characters transliterated with capital letters']
REQUIRED = ['twins', 'enlarged_cases', 'cologne_cases', 'omission_cases', 'skeleton_cases', 'rusalka_cases', 'rusalka_simple_cases', 'rusalka_rules_cases', 'variants', 'random_strings', 'enumerated', 'no_letter_cases', 'unicode_cologne_cases']

UPPER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def letters_of(s):
    return ''.join(c for c in unidecode(s).upper() if c in UPPER)


def cologne_reference(w):
    """w: upper case letters A-Z."""
    code = []
    i = 0

    while i < len(w):
        c = w[i]
        before = w[i - 1] if i else ''
        after = w[i + 1] if i + 1 < len(w) else ''

        if c in 'AEIJOUY':
            code.append('0')
        elif c == 'B':
            code.append('1')
        elif c == 'P':
            if after == 'H':
                code.append('3')
            else:
                code.append('1')
        elif c in 'DT':
            code.append('8' if after and after in 'CSZ' else '2')
        elif c in 'FVW':
            code.append('3')
        elif c in 'GKQ':
            code.append('4')
        elif c == 'C':
            if not before:
                code.append('4' if after and after in 'AHKLOQRUX' else '8')
            elif before in 'SZ':
                code.append('8')
            else:
                code.append('4' if after and after in 'AHKOQUX' else '8')
        elif c == 'X':
            code.append('8' if before and before in 'CKQ' else '48')
        elif c == 'L':
            code.append('5')
        elif c in 'MN':
            code.append('6')
        elif c == 'R':
            code.append('7')
        elif c in 'SZ':
            code.append('8')

        i += 1

    code = ''.join(code)
    code = ''.join(d for k, d in enumerate(code) if k == 0 or d != code[k - 1])
    return code[:1] + code[1:].replace('0', '')


def unique(s):
    return ''.join(dict.fromkeys(s))


def omission_reference(w):
    return ''.join(c for c in 'JKQXZVWYBFMGPDHCLNTSR' if c in w) + unique(c for c in w if c in 'AEIOU')


def skeleton_reference(w):
    if not w:
        return ''
    rest = [c for c in w[1:] if c != w[0]]
    return w[0] + unique(c for c in rest if c not in 'AEIOU') + unique(c for c in rest if c in 'AEIOU')


SIMPLE = 'abcdfgklmnopqrtuvwx'


def rusalka_reference(w):
    """Names over letters in no digraph rule."""
    if len(w) < 2:
        return w
    w = ''.join({'v': 'f', 'w': 'f', 'c': 'k', 'g': 'k'}.get(c, c) for c in w)
    w = ''.join(c for k, c in enumerate(w) if k == 0 or c != w[k - 1])
    first = 'a' if w[0] in 'aeiouy' else w[0]
    return first + ''.join(c for c in w[1:] if c not in 'aeiouy')


def replaced(w, forms, by):
    """Leftmost, first form of the list first."""
    out, k = [], 0
    while k < len(w):
        form = next((f for f in forms if w.startswith(f, k)), None)
        if form is None:
            out.append(w[k])
            k += 1
        else:
            out.append(by)
            k += len(form)
    return ''.join(out)


def optional(before, forms):
    return [b + f for f in forms for b in before] + list(forms)


def rusalka_rules(s):
    """The ordered rules, applied by hand. None: not decided."""
    w = s.lower()
    for a, b in (('č', 'ch'), ('š', 'ch'), ('ŝ', 'ch'), ('û', 'iou'), ('ž', 'zh')):
        w = w.replace(a, b)
    w = unidecode(w)
    if any('A' <= c <= 'Z' for c in w):
        return None
    w = ''.join(c for c in w if 'a' <= c <= 'z')
    if len(w) < 2:
        return w
    w = replaced(w, ['cz'], 'ts')
    if w[-2:] in ('ij', 'iy'):
        w = w[:-2]
    w = replaced(w, ['f', 'v', 'w', 'ph'], 'f')
    for start in ('je', 'ye', 'e'):
        if w.startswith(start):
            w = 'J' + w[len(start):]
            break
    w = replaced(w, optional('dt', ['ch', 'sh']) + ['tz'], 'ʃ')
    w = replaced(w, optional('dt', ['zh', 'j']), 'ʒ')
    w = replaced(w, ['ks'], 'x')
    if len(w) > 1 and w[0] == 'y' and w[1] in 'aeiou':
        w = 'j' + w[1:]
    w = replaced(w, ['iou'], 'j')
    w = replaced(w, ['c', 'g'], 'k')
    w = w.replace('h', '')
    w = ''.join(c for k, c in enumerate(w) if k == 0 or c != w[k - 1]).lower()
    if not w:
        return w
    return ('a' if w[0] in 'aeiouy' else w[0]) + ''.join(c for c in w[1:] if c not in 'aeiouy')


def rusalka_judge(ctx, s, r):
    want = rusalka_rules(s)
    if want is None:
        return
    if r != want:
        ctx.fail('rusalka: the code is not the one its rules give', {'string': s, 'got': r, 'expected': want})
    ctx.count('rusalka_rules_cases')


def judge(ctx, w, s=None):
    """w: A-Z letters; s: a string of which they are the letters."""
    from fog.phonetics import cologne
    from fog.key import omission_key, skeleton_key
    s = w if s is None else s

    for name, f, reference in (('cologne', cologne, cologne_reference), ('omission', omission_key, omission_reference), ('skeleton', skeleton_key, skeleton_reference)):
        ok, got = ctx.call(name, f, s)
        want = reference(w)
        if ok and got != want:
            ctx.fail('%s: the code is not the one its rules give' % name, {'string': s, 'letters': w, 'got': got, 'expected': want})
        ctx.count(name + '_cases')


ACCENTS = {'A': 'ÀÂÄáå', 'E': 'ÉéèÊë', 'I': 'ïÎí', 'O': 'Öôó', 'U': 'Üûù', 'C': 'çÇ', 'N': 'ñÑ', 'S': 'śŠ', 'Z': 'žŻ', 'L': 'łŁ', 'Y': 'ýŸ'}


def dress(rng, w):
    """Case and diacritics; punctuation around, never inside a digraph."""
    out = ''.join(rng.choice(ACCENTS[c]) if c in ACCENTS and rng.random() < 0.2 else rng.choice([c, c.lower()]) for c in w)
    out = rng.choice(['', '  ', '"', "O' "[1:], '-', '12']) + out + rng.choice(['', '.', ' ', '!!', '3', '\n'])

    # Between letters, except inside PH, which is replaced before punctuation is dropped
    if rng.random() < 0.4 and len(w) > 2:
        p = out.upper().find(w[1:2]) if False else rng.randint(0, len(out))
        if not (0 < p < len(out) and out[p - 1] in 'pP' and out[p] in 'hH'):
            out = out[:p] + rng.choice(['-', ' ', "'", '.']) + out[p:]

    return out


def words(ctx):
    rng = ctx.rng

    for _ in range(30):
        pool = rng.choice([UPPER, 'CSZAHKLOQRUX', 'XCKQAE', 'DTCSZ', 'PHAF', 'AEIOUYJHBC', 'ABCXSZ', 'LMNRAEIO'])
        w = gen.string(rng, ctx.near(rng.choice([0, 1, 2, 3, 4, 6, 10, 10, 20, 45]), 80, 0.05), pool)
        atoms = [x.upper() for x in ctx.strs if x.isascii() and x.isalpha()]
        if atoms and rng.random() < 0.2:
            p = rng.randint(0, len(w))
            w = w[:p] + rng.choice(atoms) + w[p:]
        judge(ctx, w)
        s = dress(rng, w)
        if letters_of(s) == w:
            judge(ctx, w, s)
            ctx.count('variants')
        if not w:
            ctx.count('no_letter_cases')
        ctx.observe((w, s), len(w) > 1)


def twins(ctx):
    """Words of one length, of which one differs from another by one letter."""
    from fog.phonetics import rusalka
    rng = ctx.rng

    for w in gen.twins(rng, rng.choice([UPPER, 'CSZAHKLOQRUX', 'LMNRAEIO', 'BCDFAEIOU'])):
        judge(ctx, w)
        ok, r = ctx.call('rusalka', rusalka, w.lower())
        if ok:
            rusalka_judge(ctx, w.lower(), r)
        ctx.count('twins')
        ctx.observe(w)


def enumerated(ctx):
    """Every word of three letters."""
    i = ctx.index % (26 * 26)
    for c in UPPER:
        w = UPPER[i // 26] + UPPER[i % 26] + c
        judge(ctx, w)
        judge(ctx, w[:2])
        ctx.count('enumerated')
        ctx.observe(w)


# Characters of any script whose transliteration holds letters, by what it looks like
TRANSLITERATED = [c for c in map(chr, list(range(128, 0xd800)) + list(range(0x1d400, 0x1d800))) if letters_of(c)]


def unicode_strings(ctx):
    """Any string: no failure, and the shape of a code."""
    from fog.phonetics import cologne, rusalka
    from fog.key import omission_key, skeleton_key
    rng = ctx.rng

    for _ in range(15):
        s = ''.join(rng.choice(TRANSLITERATED) if rng.random() < 0.4 else gen.random_char(rng) for _ in range(rng.randint(0, 8)))
        ok, c = ctx.call('cologne', cologne, s)
        if ok and (not isinstance(c, str) or set(c) - set('012345678') or '0' in c[1:]):
            ctx.fail('cologne: not a code', {'string': s, 'got': c})
        # PH may be replaced before or after the transliteration, and some
        # characters have an upper case transliterated otherwise
        if ok and 'PH' not in letters_of(s) and letters_of(s.upper()) == letters_of(s):
            if c != cologne_reference(letters_of(s)):
                ctx.fail('cologne: the code is not the one its rules give', {'string': s, 'letters': letters_of(s), 'got': c, 'expected': cologne_reference(letters_of(s))})
            ctx.count('unicode_cologne_cases')
            if letters_of(s) != ''.join(x for x in unidecode(s.upper()) if x in UPPER):
                ctx.count('lower_case_transliterations')
        # Keys only depend on the transliterated letters
        w = letters_of(s)
        ok, k = ctx.call('omission_key', omission_key, s)
        if ok and k != omission_reference(w):
            ctx.fail('omission: the code is not the one its rules give', {'string': s, 'letters': w, 'got': k})
        ok, k = ctx.call('skeleton_key', skeleton_key, s)
        if ok and k != skeleton_reference(w):
            ctx.fail('skeleton: the code is not the one its rules give', {'string': s, 'letters': w, 'got': k})
        ok, r = ctx.call('rusalka', rusalka, s)
        if ok:
            rusalka_shape(ctx, s, r)
            rusalka_judge(ctx, s, r)
        ctx.count('random_strings')
        ctx.observe(s, len(w) > 1)


def rusalka_shape(ctx, s, r):
    if not isinstance(r, str) or any(not c.isalpha() or c != c.lower() for c in r):
        ctx.fail('rusalka: the code does not hold lower-case letters only', {'string': s, 'got': r})
    elif any(c in 'aeiouy' for c in r[1:]):
        ctx.fail('rusalka: there is a vowel after the first letter', {'string': s, 'got': r})


def russian(ctx):
    from fog.phonetics import rusalka
    rng = ctx.rng

    for _ in range(25):
        atoms = ['sh', 'ch', 'zh', 'tch', 'dzh', 'j', 'y', 'e', 'iou', 'ks', 'x', 'ph', 'f', 'v', 'w', 'cz', 'tz', 'ij', 'iy', 'h', 'kh', 'g', 'c', 'k', 'a', 'o', 'i', 'u',
                 'l', 'm', 'n', 'r', 's', 't', 'd', 'z', 'b', 'p', 'č', 'š', 'ž', 'û', 'ŝ', 'é', 'ï', 'ja', 'ov', 'ev', 'ski', 'ss', 'ff', 'shch']
        atoms += [x.lower() for x in ctx.strs if x.isascii() and x.isalpha()]
        s = ''.join(rng.choice(atoms) for _ in range(rng.choice([rng.randint(0, 7), rng.randint(0, 7), rng.randint(0, 16)])))
        ok, r = ctx.call('rusalka', rusalka, s)
        if not ok:
            continue
        rusalka_shape(ctx, s, r)
        rusalka_judge(ctx, s, r)
        t = rng.choice([s.upper(), s.title(), s.capitalize(), s.swapcase()])
        if t.lower() == s.lower():
            ok, r2 = ctx.call('rusalka', rusalka, t)
            if ok and r2 != r:
                ctx.fail('rusalka depends on case', {'string': s, 'variant': t, 'one': r, 'other': r2})
        p = rng.randint(0, len(s))
        t = s[:p] + rng.choice([' ', '-', "'", '.', '3', '_']) + s[p:]
        ok, r3 = ctx.call('rusalka', rusalka, t)
        if ok and r3 != r:
            ctx.fail('rusalka depends on characters that are not letters', {'string': s, 'variant': t, 'one': r, 'other': r3})
        ctx.count('rusalka_cases')
        ctx.observe(s, len(s) > 1)

        # Short words over the letters of a few rules
        w = gen.string(rng, rng.randint(1, 6), rng.choice(['ijyea', 'csztdh', 'pfhv', 'iouy', 'ksxcg', 'jezhd', 'abcdefghijklmnopqrstuvwxyz']))
        ok, r = ctx.call('rusalka', rusalka, w)
        if ok:
            rusalka_judge(ctx, w, r)

        # Simple letters: exact
        w = gen.string(rng, rng.randint(0, 8), rng.choice([SIMPLE, 'abkfvwcg', 'aoukl']))
        ok, r = ctx.call('rusalka', rusalka, w)
        if ok and r != rusalka_reference(w):
            ctx.fail('rusalka: the code of simple letters is wrong', {'string': w, 'got': r, 'expected': rusalka_reference(w)})
        if w and len(w) > 1:
            p = rng.randrange(len(w))
            doubled = w[:p] + w[p] * rng.randint(2, 3) + w[p + 1:]
            ok, r2 = ctx.call('rusalka', rusalka, doubled)
            if ok and r2 != r:
                ctx.fail('rusalka: doubling a letter changes the code', {'string': w, 'doubled': doubled, 'one': r, 'other': r2})
        ctx.count('rusalka_simple_cases')
        ctx.observe(w, len(w) > 1)


def workloads(tier):
    k = 3 if tier == 'quick' else 60
    return [('words', words, 600 * k), ('twins', twins, 150 * k), ('words_large', enlarged(words, 1100), 8 * k), ('enumerated', enumerated, 676), ('unicode', unicode_strings, 400 * k), ('russian', russian, 600 * k)]
