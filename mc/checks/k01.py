"""K01: the in-memory message cache is an exact bounded FIFO map."""
from mc.core import need, need_equal

PROPERTY = 'K01'
LEVEL = 'model_checking'
RULE = ('every sequence (up to renaming of keys) of put, replace, get and '
        'remove over up to four keys, for sizes 1, 2, 3 and unlimited, with '
        'falsy values among the values; after every step all views are '
        'compared with an ordered-dictionary reference; also long runs with '
        'every stride of reuse. Non-trivial: has a put.')
ASSUMPTIONS = ['the size limit is positive']

VALUES = {'mixed': [None, 0, '', False, (), 'x'],
          'text': ['x', None, 'y', '', (), 1, False, 'z']}
NAMES = {'text': ['b', 'a', 'd', 'c', 'e'],
         'mixed': [0, '', None, (1, 2), 'x']}


def units(tier, seed):
    t = tier == 'thorough'
    result = [('seq', size, 4, n, names, op)
              for n, names in ((8 if t else 6, 'text'), (5, 'mixed'))
              for size in (2, 1, 3, 0)
              for op in range(8)]
    result += [('seq', size, 2, 12 if t else 9, 'text', op)
               for size in (1, 2) for op in range(4)]
    result += [('long', size, stride) for size in (1, 2, 3, 10, 100)
               for stride in range(1, 8)]
    return result


def explore(unit, rec):
    if unit[0] == 'long':
        for back in range(6):
            for pops in range(4):
                rec.run(unit + (back, pops))
        return
    _, size, keys, depth, names, second = unit
    # operation i < keys: put key i; otherwise: remove key i - keys
    first = (0,)
    if second == 0:
        rec.run(('seq', size, names, first, keys))
    if not extendable(first, second, keys):
        return
    for seq in extend(first + (second,), keys, depth):
        rec.run(('seq', size, names, seq, keys))


def extendable(seq, op, keys):
    """Keys are named in order of their first appearance."""
    used = max(x % keys for x in seq)
    return op % keys <= used + 1


def extend(seq, keys, depth):
    # Every prefix is checked on the way.
    if len(seq) == depth:
        yield seq
        return
    for op in range(2 * keys):
        if extendable(seq, op, keys):
            yield from extend(seq + (op,), keys, depth)


def compare(cache, model, absent, step):
    need_equal(len(cache), len(model), 'length after step %d' % step)
    need_equal(sorted(map(repr, cache.keys())), sorted(map(repr, model)),
               'keys() after step %d' % step)
    need_equal(sorted(map(repr, iter(cache))), sorted(map(repr, model)),
               'iteration after step %d' % step)
    need_equal(sorted(map(repr, cache.values())),
               sorted(map(repr, model.values())),
               'values() after step %d' % step)
    need_equal(sorted(map(repr, cache.items())),
               sorted(map(repr, model.items())),
               'items() after step %d' % step)
    for k, v in model.items():
        need(k in cache, '{!r} is missing after step {}', k, step)
        need_equal(cache[k], v, 'cache[%r] after step %d' % (k, step))
        need_equal(cache.get(k, 'none'), v,
                   'get(%r) after step %d' % (k, step))
    for k in absent:
        if k in model:
            continue
        need(k not in cache, '{!r} is there after step {}', k, step)
        need_equal(cache.get(k), None, 'get(%r) after step %d' % (k, step))
        need_equal(cache.get(k, 'none'), 'none',
                   'get(%r, default) after step %d' % (k, step))
        try:
            cache[k]
        except KeyError:
            pass
        else:
            need(False, 'cache[{!r}] is found after step {}', k, step)


def new_cache(size):
    from sbclassifier.corpora.caches import NaiveCache
    return NaiveCache(max_size=size) if size else NaiveCache()


def put(cache, model, key, value, size):
    cache.put(key, value)
    model[key] = value
    if size and len(model) > size:
        del model[next(iter(model))]


def pop(cache, model, key):
    try:
        cache.pop(key)
    except KeyError:
        need(key not in model, 'removing {!r} fails', key)
    model.pop(key, None)


def judge(case, rec):
    if case[0] == 'long':
        return judge_long(case, rec)
    _, size, names, seq, keys = case
    values = VALUES[names]
    names = NAMES[names]
    cache, model = new_cache(size), {}
    for i, op in enumerate(seq):
        key = names[op % keys]
        if op < keys:
            put(cache, model, key, values[i] if i < len(values) else i, size)
        else:
            pop(cache, model, key)
        rec.step()
        compare(cache, model, names, i)
    rec.state((size, tuple(model.items())))


def judge_long(case, rec):
    _, size, stride, back, pops = case
    cache, model = new_cache(size), {}
    for i in range(300):
        put(cache, model, 'k%d' % i, i, size)
        if back and i % stride == 0:
            put(cache, model, 'k%d' % max(0, i - back), -i, size)
        if pops and i % (stride + 1) == 0:
            pop(cache, model, 'k%d' % max(0, i - pops))
        rec.step()
        if i % 10 == 0 or i > 290:
            compare(cache, model, ['absent', 'k0', 'k%d' % (i + 1)], i)
    rec.state(case)
