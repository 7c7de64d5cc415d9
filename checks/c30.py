import datetime
import re
import tomllib
from collections import Counter
from html.parser import HTMLParser

from vf import cli
from vf.core import enlarged

FILES = ['fog/cli', 'fog/clustering/key_collision.py']
RULE = ('A case is a CSV file whose column is clustered, the report being parsed back. Non-trivial: there is a cluster of values having different '
        'numbers of rows.')
ASSUMPTIONS = ['files are rectangular, without blank lines, in UTF-8', 'values sharing a fingerprint are told by the library function, which C20 decides; an empty fingerprint groups nothing',
               'values equally frequent may come in any order', 'in HTML, whitespace around a value is not significant']
REQUIRED = ['many_values', 'enlarged_cases', 'toml_reports', 'html_reports', 'clusters', 'no_clusters', 'values', 'escaped_values', 'control_values', 'ranked_clusters', 'repeated_rows', 'empty_fingerprints', 'processes', 'large_files', 'long_values', 'html_special_values']

BASES = ['New York', 'École Normale', 'a b c', 'x1 y2', 'the cat', 'œuvre d art', 'Σ sigma', 'a', 'C D', 'one two three four']
NOISE = ['.', '!', ',', '"', '\\', '\\n', '<b>', '&', '&amp;', '\'', '\n', '\t', '\r', '\r\n', '\x7f', '\x01', '\x1b', '()', '\u2028', '-', '</li>', '<!--', '%', '%s', '{}', '\\u0041', '"""', '\x0c', '\\"']


def value(rng, bases):
    r = rng.random()
    if r < 0.06:
        return rng.choice(['', '!', ' ', '...', '"', '\\', '\n'])
    if r < 0.1:
        return ''.join(rng.choice(['a', 'b', '1', ' ']) for _ in range(rng.randint(1, 6)))
    words = rng.choice(bases).split(' ')
    if rng.random() < 0.4:
        rng.shuffle(words)
    if rng.random() < 0.2:
        words.append(rng.choice(words))
    out = []
    for w in words:
        w = rng.choice([str.lower, str.upper, str.title, str, str])(w)
        out.append(w)
    s = rng.choice([' ', ' ', '  ', '\t']).join(out)
    if rng.random() < 0.5:
        # Only what the fingerprint ignores, and some that it does not
        p = rng.choice([0, len(s), rng.randint(0, len(s))])
        s = s[:p] + rng.choice(NOISE) + s[p:]
    if rng.random() < 0.1:
        s = ' ' + s + ' '
    return s


class Report(HTMLParser):
    def __init__(self):
        HTMLParser.__init__(self, convert_charrefs=True)
        self.items = []
        self.lists = []
        self.item = None
        self.tags_in_items = []
        self.text = []
        self.cells = []
        self.cell = None

    def handle_starttag(self, tag, attrs):
        if self.item is not None:
            self.tags_in_items.append(tag)
        if tag == 'li':
            self.item = []
        elif tag == 'ul':
            self.lists.append([])
        elif tag == 'td':
            self.cell = []

    def handle_endtag(self, tag):
        if tag == 'li' and self.item is not None:
            self.lists[-1].append(''.join(self.item))
            self.item = None
        elif tag == 'td' and self.cell is not None:
            self.cells.append(''.join(self.cell).strip())
            self.cell = None

    def handle_data(self, data):
        if self.item is not None:
            self.item.append(data)
        elif self.cell is not None:
            self.cell.append(data)
        else:
            self.text.append(data)

    def handle_comment(self, data):
        self.tags_in_items.append('comment')

    def handle_decl(self, data):
        if self.item is not None:
            self.tags_in_items.append('declaration')


def cluster(ctx, inprocess=True):
    from fog.key import fingerprint
    rng = ctx.rng

    for _ in range(3 if inprocess else 1):
        height = ctx.near(rng.choice([3, 10, 10, 30, 30, rng.choice([0, 1, 2])]), 200, 0.05)
        if rng.random() < 0.02:
            height = 1500
            ctx.count('large_files')
        width = rng.choice([1, 2, 4])
        names = rng.sample(['id', 'name', 'a b', 'é', 'v'], width)
        position = rng.randrange(width)
        bases = rng.sample(BASES, rng.choice([1, 2, 2, 3]))
        if height > 200:
            # Clusters and values by the hundred too
            bases = bases + ['base %d' % i for i in range(rng.choice([0, 10, 150]))]
        pool = [ctx.spice(value(rng, bases), 0.03) for _ in range(rng.choice([4, 12, 12, 40] if height < 200 else [12, 40, 900]))]
        if rng.random() < 0.06:
            # Long values, alike but for what the fingerprint ignores
            long = ' '.join('w%d' % i for i in range(ctx.near(rng.choice([20, 60, 150, 400]), 1500, 0.3, 2)))
            pool += [long, long.upper(), long + '!', '(' + long + ')', long.replace(' ', '  ')]
            ctx.count('long_values')
        rows = [['o%d' % i] * width for i in range(height)]
        for row in rows:
            row[position] = rng.choice(pool)
        counts = Counter(row[position] for row in rows)
        groups = {}
        for v in counts:
            k = fingerprint(v)
            if k:
                groups.setdefault(k, set()).add(v)
            else:
                ctx.count('empty_fingerprints')
        want = {frozenset(g) for g in groups.values() if len(g) > 1}

        kind = rng.choice(['toml', 'toml', 'html'])
        args = ['cluster']
        if kind == 'html' or rng.random() < 0.3:
            args += [rng.choice(['-t', '--type']), kind]
        if rng.random() < 0.2:
            args += ['-a', 'fingerprint_collision']
        args.append(names[position])
        witness = {'arguments': args, 'values': dict(counts)}
        data = cli.encode([names] + rows, rng)

        try:
            out = cli.run(args, data, ctx.scratch, rng, inprocess, 'c30').decode('utf-8')
        except cli.Failed as e:
            ctx.fail('fog cluster failed: %s' % e, witness)
            continue
        except Exception as e:
            ctx.fail('fog cluster raised %s: %s' % (type(e).__name__, e), witness)
            continue

        if kind == 'toml':
            check_toml(ctx, out, counts, want, len(rows), witness)
        else:
            check_html(ctx, out, counts, want, len(rows), witness)

        ctx.count(kind + '_reports')
        ctx.count('clusters', len(want))
        ctx.count('values', sum(map(len, want)))
        if not want:
            ctx.count('no_clusters')
        for g in want:
            if len({counts[v] for v in g}) > 1:
                ctx.count('ranked_clusters')
            for v in g:
                if '"' in v or '\\' in v:
                    ctx.count('escaped_values')
                if any(c < ' ' or c == '\x7f' for c in v):
                    ctx.count('control_values')
                if '<' in v or '&' in v:
                    ctx.count('html_special_values')
        if any(n > 1 for n in counts.values()):
            ctx.count('repeated_rows')
        if not inprocess:
            ctx.count('processes')
        ctx.observe((args, sorted(counts.items())), any(len({counts[v] for v in g}) > 1 for g in want))


def many_values(ctx):
    """Thousands of different values, few of them alike, and many rows."""
    from fog.key import fingerprint
    rng = ctx.rng
    n = rng.choice([1100, 5200, 6000, 10500, 20000])
    values = ['v%d' % i for i in range(n)]
    for i in rng.sample(range(n), rng.randint(2, 30)) + [n - 1]:
        values += rng.sample(['V%d' % i, 'v%d!' % i, ' v%d' % i, '(v%d)' % i], rng.randint(1, 3))
    if rng.random() < 0.5:
        rng.shuffle(values)
    for v in rng.sample(values, 10):
        values += [v] * rng.choice([1, 5, 1200])
    counts = Counter(values)
    groups = {}
    for v in counts:
        groups.setdefault(fingerprint(v), set()).add(v)
    want = {frozenset(g) for g in groups.values() if len(g) > 1}
    kind = rng.choice(['toml', 'html'])
    args = ['cluster', '-t', kind, 'c']
    witness = {'arguments': args, 'distinct values': len(counts), 'clusters': [sorted(g) for g in want]}
    try:
        out = cli.run(args, cli.encode([['c']] + [[v] for v in values], rng), ctx.scratch, rng, True, 'c30').decode('utf-8')
    except Exception as e:
        ctx.fail('fog cluster raised %s: %s' % (type(e).__name__, e), witness)
        return
    (check_toml if kind == 'toml' else check_html)(ctx, out, counts, want, len(values), witness)
    ctx.count('many_values')
    ctx.observe((n, kind, repr(sorted(map(sorted, want)))))


def check_toml(ctx, out, counts, want, lines, witness):
    try:
        # Newlines are those of the file
        doc = tomllib.loads(out)
    except tomllib.TOMLDecodeError as e:
        ctx.fail('the TOML report does not parse: %s' % e, dict(witness, report=out[-1500:]))
        return
    stats = doc.get('stats', {})
    clusters = doc.get('cluster', [])
    expected = {'lines': lines, 'nb_distinct_values': len(counts), 'nb_clusters': len(want)}
    got = {k: stats.get(k) for k in expected}
    if got != expected:
        ctx.fail('the statistics of the report are wrong', dict(witness, got=got, expected=expected))
    if not isinstance(doc.get('info', {}).get('date'), datetime.datetime) or doc['info'].get('algorithm') != 'fingerprint_collision':
        ctx.fail('the report does not tell its date and algorithm', dict(witness, info=doc.get('info')))
    if len(clusters) != len(want) or len({c.get('id') for c in clusters}) != len(clusters):
        ctx.fail('the report does not hold each cluster once', dict(witness, got=clusters, expected=list(want)))
        return
    seen = set()
    for c in clusters:
        values = [v[0] for v, _ in c['values']]
        numbers = [n[0] for _, n in c['values']]
        if frozenset(values) not in want or len(set(values)) != len(values):
            ctx.fail('a cluster of the report is not a group of the column', dict(witness, got=values, expected=list(want)))
            return
        seen.add(frozenset(values))
        if numbers != [counts[v] for v in values]:
            ctx.fail('the report does not tell the number of rows of each value', dict(witness, got=c['values']))
        elif numbers != sorted(numbers, reverse=True):
            ctx.fail('values are not sorted by decreasing number of rows', dict(witness, got=c['values']))
        if c['nb_values'] != len(values) or c['nb_rows'] != sum(counts[v] for v in values):
            ctx.fail('a cluster has wrong counts', dict(witness, got=c))
        if c['harmonized'] != values[0]:
            ctx.fail('the harmonized value is not the most frequent', dict(witness, got=c))
        if c.get('harmonize') is not False:
            ctx.fail('a cluster is not left to be harmonized', dict(witness, got=c))
    if seen != want:
        ctx.fail('clusters are missing from the report', dict(witness, missing=list(want - seen)))


def number(s):
    return int(s.replace(',', ''))


def check_html(ctx, out, counts, want, lines, witness):
    r = Report()
    r.feed(out)
    r.close()
    if r.tags_in_items:
        ctx.fail('values of the HTML report are not escaped', dict(witness, tags=r.tags_in_items[:5]))
        return
    cells = dict(zip(r.cells[::2], r.cells[1::2]))
    expected = {'Lines': lines, 'Distinct values': len(counts), 'Found clusters': len(want)}
    try:
        got = {k: number(cells[k]) for k in expected}
    except (KeyError, ValueError) as e:
        ctx.fail('the statistics of the HTML report cannot be read: %r' % e, dict(witness, cells=cells))
        return
    if got != expected:
        ctx.fail('the statistics of the HTML report are wrong', dict(witness, got=got, expected=expected))
    heads = [(number(a), number(b)) for a, b in re.findall(r'\(([\d,]+) unique values, ([\d,]+) affected rows\)', ''.join(r.text))]
    if len(r.lists) != len(want) or len(heads) != len(want):
        ctx.fail('the HTML report does not hold each cluster once', dict(witness, got=r.lists, expected=list(want)))
        return
    # Whitespace around values is not significant, so lists are matched without it
    left = list(want)
    for shown, head in zip(r.lists, heads):
        shown = [x.strip() for x in shown]
        match = None
        for g in left:
            if Counter(v.strip() for v in g) == Counter(shown) and (len(g), sum(counts[v] for v in g)) == head:
                match = g
                break
        if match is None:
            ctx.fail('a list of the HTML report is not a cluster of the column', dict(witness, got=shown, head=head, expected=[sorted(g) for g in left]))
            return
        left.remove(match)
        by = {}
        for v in match:
            by.setdefault(v.strip(), []).append(counts[v])
        if all(len(x) == 1 for x in by.values()):
            numbers = [by[x][0] for x in shown]
            if numbers != sorted(numbers, reverse=True):
                ctx.fail('values of the HTML report are not sorted by decreasing number of rows', dict(witness, got=list(zip(shown, numbers))))


def processes(ctx):
    cluster(ctx, False)


def workloads(tier):
    k = 3 if tier == 'quick' else 60
    return [('cluster', cluster, 700 * k), ('processes', processes, 8 * k), ('cluster_large', enlarged(cluster, 2100), 4 * k), ('many_values', many_values, 8 * k)]
