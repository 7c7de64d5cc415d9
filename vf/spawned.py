"""
Runs clusterings sequentially then in parallel, under a start method of processes
where workers inherit nothing from the main one: spawned.py FILE
"""
import json
import multiprocessing
import sys


class Thing(object):
    def __init__(self, i):
        self.i = i


def run(case):
    from fog import clustering
    edges = set(map(tuple, case['edges']))
    kind, n = case['kind'], case['n']
    things = [Thing(i) for i in range(n)] if case['objects'] else list(range(n))
    data = [things[i] for i in case['order']]
    value = (lambda x: x.i) if case['objects'] else (lambda x: x)
    options = dict(case['options'])

    def similar(a, b):
        i, j = value(a), value(b)
        return ((i, j) if i < j else (j, i)) in edges

    if kind == 'quickjoin':
        f = clustering.quickjoin
        options['distance'] = lambda a, b: abs(value(a) ** 2 % 31 - value(b) ** 2 % 31) + (value(a) != value(b))
        options['radius'] = case['radius']
    else:
        if case['radius'] is None:
            options['similarity'] = similar
        else:
            options['distance'] = lambda a, b: 1 if similar(a, b) else 2
            options['radius'] = 1
        f = clustering.pairwise

        if kind == 'blocking':
            f = clustering.blocking
            width = case['width']
            options['blocks'] = lambda x: [(value(x) * 3 + b * b) % (3 + b) for b in range(width)]

    def once(**kw):
        found = list(f(list(data), **dict(options, **kw)))
        known = set(map(id, data))
        if case['objects'] and not all(id(x) in known for c in found for x in c):
            return 'copies of the items'
        return sorted(sorted(value(x) for x in c) for c in found)

    return [once(), once(processes=case['processes'])]


def main():
    with open(sys.argv[1]) as f:
        task = json.load(f)

    sys.path.insert(0, task['repo'])
    sys.dont_write_bytecode = True
    multiprocessing.set_start_method(task['method'])
    results = []

    for case in task['cases']:
        try:
            results.append(run(case))
        except Exception as e:
            results.append('%s: %s' % (type(e).__name__, e))

    print(json.dumps(results))


if __name__ == '__main__':
    main()
