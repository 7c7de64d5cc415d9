from itertools import groupby

from unidecode import unidecode

from vf import cli, gen

FILES = ['fog/cli']
RULE = ('A case is a CSV file and a split or transform command run on it, through files or standard streams. '
        'Non-trivial: at least two rows and two columns.')
ASSUMPTIONS = ['files are rectangular, without blank lines, in UTF-8, with distinct column names', '`len` only ends a chain of operations, as it gives a number',
               'the fingerprint operation is compared to the library function, which C20 decides']
REQUIRED = ['twin_cells', 'split_runs', 'split_values', 'split_many_values', 'split_target', 'split_rename', 'split_empty_cells', 'transform_runs', 'transform_in_place', 'transform_end', 'transform_after', 'transform_eval', 'cells_kept',
            'with_newlines', 'with_carriage_returns', 'with_quotes', 'large_files', 'processes', 'first_column', 'last_column'] + [
    'op_' + o for o in ('fingerprint', 'len', 'lower', 'squeeze', 'strip', 'unidecode', 'upper')]

PIECES = ['a', 'b', 'ABC', 'é', 'École', ' ', '  ', 'ss', 'aabb', '"', '""', ',', ';', '\n', '\r\n', '\r', '\t', '\'', '|', '||', '一', 'œ', '🐱', '0', '12', '-', '.', 'ß', 'the', 'The The', '\\', '\u2028', '\x0b', '\x1c', '\ufeff', '\xa0', '\u200d', 'e\u0301', '#', '%s', '{}', '=1+1', 'NULL', 'nan']


def cell(ctx):
    rng = ctx.rng
    n = rng.choice([0, 0, 1, 1, 2, 4, 8])
    if rng.random() < 0.01:
        n = ctx.near(rng.choice([60, 400]), 3000, 0.5)
    return ctx.spice(''.join(rng.choice(PIECES) for _ in range(n)), 0.01)


def table(ctx):
    rng = ctx.rng
    width = rng.choice([1, 1, 2, 3, 5, 9, 9, 20])
    height = ctx.near(rng.choice([0, 1, 2, 4, 8]), 100, 0.04)
    if rng.random() < 0.02:
        height = rng.choice([300, 900, ctx.near(1100, 3000, 0.5)])
        ctx.count('large_files')
    names = []
    while len(names) < width:
        n = rng.choice(['id', 'name', 'value', 'Column', 'a b', 'é', 'x,y', '"q"', 'line\nbreak', 'c%d' % len(names), ' pad ', '', 'Name', 'NAME', 'name ', '\ufeffid', 'nam\u0065\u0301', 'nam\xe9', '0', '-1', 'x\ty'])
        if n not in names and not (width == 1 and n == ''):
            names.append(n)
    rows = [[cell(ctx) for _ in range(width)] for _ in range(height)]
    if rows and rng.random() < 0.05:
        # Cells of one length, of which one differs from another by one character
        i = rng.randrange(width)
        cells = gen.twins(rng, rng.choice(['ab ', 'aéB,"', 'abcdefgh']))
        for row in rows:
            if rng.random() < 0.8:
                row[i] = rng.choice(cells)
        ctx.count('twin_cells')
    text = ''.join(c for r in rows for c in r)
    if '\n' in text:
        ctx.count('with_newlines')
    if '\r' in text:
        ctx.count('with_carriage_returns')
    if '"' in text:
        ctx.count('with_quotes')
    position = rng.choice([0, width - 1, rng.randrange(width)])
    if position == 0:
        ctx.count('first_column')
    if position == width - 1:
        ctx.count('last_column')
    return names, rows, position


def compare(ctx, got, want, witness):
    if got == want:
        return True
    i = 0
    while i < min(len(got), len(want)) and got[i] == want[i]:
        i += 1
    ctx.fail('the rows written are not those expected', dict(witness, row=i, got=got[i:i + 2], expected=want[i:i + 2], rows=(len(got), len(want))))
    return False


def execute(ctx, args, names, rows, inprocess):
    data = cli.encode([names] + rows, ctx.rng)
    try:
        out = cli.run(args, data, ctx.scratch, ctx.rng, inprocess, 'c29')
        return cli.decode(out)
    except cli.Failed as e:
        ctx.fail('fog %s failed: %s' % (args[0], e), {'arguments': args, 'data': data.decode('utf-8')})
    except UnicodeDecodeError as e:
        ctx.fail('fog %s wrote something else than text: %s' % (args[0], e), {'arguments': args})
    except Exception as e:
        ctx.fail('fog %s raised %s: %s' % (args[0], type(e).__name__, e), {'arguments': args, 'data': data.decode('utf-8')})
    return None


def split(ctx, inprocess=True):
    rng = ctx.rng
    for _ in range(4 if inprocess else 1):
        names, rows, position = table(ctx)
        sep = '|'
        args = ['split']
        if rng.random() < 0.6:
            sep = rng.choice(['|', ',', ', ', ';', 'a', '||', '§', '\n', ' ', '.', '\\', '-', '""'])
            args.append('--separator=' + sep)
        # Values to separate, and empty cells
        for row in rows:
            if rng.random() < 0.8:
                values = ctx.near(rng.choice([1, 2, 3, 6]), 1100, 0.02, 1)
                if rng.random() < 0.004:
                    values = rng.choice([101, 129, 257, 300, 513, 1025])
                    ctx.count('split_many_values')
                row[position] = sep.join(cell(ctx) for _ in range(values))
            if row[position] == '':
                ctx.count('split_empty_cells')
        target = rename = None
        if rng.random() < 0.4:
            target = rng.choice(['new', 'n w', 'é"'])
            args += [rng.choice(['-t', '--target-column']), target]
            ctx.count('split_target')
        if rng.random() < 0.3:
            rename = rng.choice(['renamed', 're named'])
            args += [rng.choice(['-r', '--rename-column']), rename]
            ctx.count('split_rename')
        args.append(names[position])

        headers = list(names)
        if rename is not None:
            headers[position] = rename
        if target is not None:
            headers.append(target)
        want = [headers]
        for row in rows:
            for value in row[position].split(sep):
                if target is not None:
                    want.append(row + [value])
                else:
                    want.append(row[:position] + [value] + row[position + 1:])
                ctx.count('split_values')
        got = execute(ctx, args, names, rows, inprocess)
        if got is not None:
            compare(ctx, got, want, {'arguments': args, 'headers': names, 'data': rows[:6]})
            ctx.count('cells_kept', len(rows) * (len(names) - 1))
        ctx.count('split_runs' if inprocess else 'processes')
        ctx.observe((args, names, rows), len(rows) > 1 and len(names) > 1)


def squeezed(s):
    return ''.join(c for c, _ in groupby(s))


EXPRESSIONS = [
    ('value.upper()', lambda v: v.upper()), ('value + "!"', lambda v: v + '!'), ('value[::-1]', lambda v: v[::-1]), ('len(value)', lambda v: str(len(v))),
    ('unidecode(value).lower()', lambda v: unidecode(v).lower()), ('value.replace("a", ",")', lambda v: v.replace('a', ',')), ('"x"', lambda v: 'x'),
    ('"%s|%s" % (value, value)', lambda v: '%s|%s' % (v, v)), ('value.strip() or "empty"', lambda v: v.strip() or 'empty'),
    ('"".join(sorted(value))', lambda v: ''.join(sorted(v))), ('value == ""', lambda v: str(v == '')), ('value', lambda v: v), ('len(value) / 2', lambda v: str(len(v) / 2)),
    ('"".join(c for c in "abcdeé1" if c in value)', lambda v: ''.join(c for c in 'abcdeé1' if c in v)), ('(lambda x: x + value)("<")', lambda v: '<' + v),
    ('[c for c in value if c in value[:2]]', lambda v: str([c for c in v if c in v[:2]])), ('max(value, key=lambda c: value.count(c)) if value else ""', lambda v: max(v, key=v.count) if v else ''),
    ('"yes" if "a" in value else None', lambda v: 'yes' if 'a' in v else ''), ('(x := value) + x', lambda v: v + v)
]


def transform(ctx, inprocess=True):
    from fog.key import fingerprint
    rng = ctx.rng
    operations = {'fingerprint': fingerprint, 'len': lambda v: str(len(v)), 'lower': str.lower, 'squeeze': squeezed, 'strip': str.strip, 'unidecode': unidecode, 'upper': str.upper}

    for _ in range(4 if inprocess else 1):
        names, rows, position = table(ctx)
        args = ['transform']
        evaluated = rng.random() < 0.35
        if evaluated:
            expression, f = rng.choice(EXPRESSIONS)
            ctx.count('transform_eval')
        else:
            chain = [rng.choice(['fingerprint', 'lower', 'squeeze', 'strip', 'unidecode', 'upper']) for _ in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < 0.2:
                chain[-1] = 'len'
            expression = ','.join(chain)
            for o in chain:
                ctx.count('op_' + o)

            def f(v, chain=chain):
                for o in chain:
                    v = operations[o](v)
                return v

        target = None
        after = False
        if rng.random() < 0.6:
            target = rng.choice(['new', 'n w', 'é"', 'a,b'])
            args += [rng.choice(['-t', '--target-column']), target]
            if rng.random() < 0.5:
                after = True
                args.append(rng.choice(['-a', '--after']))
            ctx.count('transform_after' if after else 'transform_end')
        else:
            ctx.count('transform_in_place')
        if evaluated:
            args.insert(rng.choice([1, len(args)]), '--eval')
        args += [names[position], expression]

        def rewritten(row, value):
            if target is None:
                return row[:position] + [value] + row[position + 1:]
            if after:
                return row[:position + 1] + [value] + row[position + 1:]
            return row + [value]

        want = [list(names) if target is None else rewritten(names, target)]
        want += [rewritten(row, f(row[position])) for row in rows]
        got = execute(ctx, args, names, rows, inprocess)
        if got is not None:
            compare(ctx, got, want, {'arguments': args, 'headers': names, 'data': rows[:6]})
            ctx.count('cells_kept', len(rows) * (len(names) - 1))
        ctx.count('transform_runs' if inprocess else 'processes')
        ctx.observe((args, names, rows), len(rows) > 1 and len(names) > 1)


def processes(ctx):
    (split if ctx.rng.random() < 0.5 else transform)(ctx, False)


def workloads(tier):
    k = 3 if tier == 'quick' else 60
    return [('split', split, 450 * k), ('transform', transform, 550 * k), ('processes', processes, 12 * k)]
