"""P01: every persistent classifier behaves like the in-memory one."""
import itertools
import os

from mc import stores
from mc.core import need_equal, scratch
from mc.ref import Ref, check_counts, check_same, check_score

PROPERTY = 'P01'
LEVEL = 'model_checking'
RULE = ('every sequence (none that another subsumes) up to a depth of train/untrain (spam or ham, of two '
        'or three messages), score, store, store+load and store+close+reopen '
        'on each file-backed classifier; afterwards counts, totals and scores '
        'are compared with the reference and an in-memory classifier, then '
        'again after a final save and reopen; also long histories, and '
        'training of thousands of words between saves. Non-trivial: has a training '
        'step.')
ASSUMPTIONS = ['unsaved changes need not survive', 'single process']

A, B = b'a', b'b'
VOCAB = (A, B, b'zz')
MESSAGES = {
    'small': [(A,), (A, B)],
    'one': [(A,)],
    'text': [('a',), ('b', 'a', 'b')],
}
QUERIES = {'small': [(A,), (A, B, b'zz')], 'one': [(A,), (A, B)],
           'text': [('a',), ('b', 'a')]}
CONTROL = [('score',), ('store',), ('load',), ('reopen',)]


def alphabet(name):
    return [(w, s, m) for m in MESSAGES[name] for w in 'LU'
            for s in (True, False)] + CONTROL


def spam_only(name):
    return [(w, True, m) for m in MESSAGES[name] for w in 'LU'] + CONTROL


def configs(tier):
    t = tier == 'thorough'
    yield 'shelve', 'small', 0, 5 if t else 4
    yield 'shelve', 'one', 0, 7 if t else 5
    yield 'shelve', 'small', 1, 7 if t else 5
    yield 'shelve', 'one', 1, 10 if t else 7
    yield 'shelve', 'text', 1, 6 if t else 4
    yield 'pickle', 'small', 0, 4 if t else 3
    yield 'pickle', 'one', 0, 6 if t else 5
    yield 'cdb', 'small', 0, 4 if t else 3
    yield 'cdb', 'one', 0, 6 if t else 5
    yield 'cdb', 'text', 1, 6 if t else 4


def ops_of(name, reduced):
    return spam_only(name) if reduced else alphabet(name)


def units(tier, seed):
    t = tier == 'thorough'
    result = []
    for backend, name, reduced, depth in configs(tier):
        for op in ops_of(name, reduced):
            for op2 in ops_of(name, reduced):
                result.append((backend, name, reduced, depth, op, op2))
    result += [('large', b, n) for b in stores.BACKENDS
               for n in (100, 1000, 2500) + ((20000,) if t else ())]
    result += [('cycle', b, n) for b in stores.BACKENDS
               for n in (1, 2, 3, 5, 10)]
    return result


def explore(unit, rec):
    if unit[0] == 'cycle':
        for k in range(12):
            rec.run(unit + (k,))
        return
    if unit[0] == 'large':
        for rest in itertools.product(('save', 'load', 'reopen', 'more',
                                       'less'), repeat=2):
            rec.run(unit + (('train',) + rest,))
        return
    backend, name, reduced, depth, op, op2 = unit
    ops = ops_of(name, reduced)
    if op2 == ops[0]:
        rec.run((backend, name, (op,)))
    for seq in extend([op, op2], ops, depth, reduced):
        rec.run((backend, name, seq))


def useful(seq, reduced):
    """False for sequences that another one subsumes: those starting with a
    save of nothing or with two saves in a row (load and reopen save first),
    and in the reduced alphabet those with a refused operation."""
    if len(seq[0]) == 1:
        return False
    live = 0
    for x, y in zip(seq, seq[1:]):
        if len(x) == len(y) == 1 and (x == y or ('score',) not in (x, y)):
            return False
    if reduced:
        for op in seq:
            if op[0] in 'LU':
                live += 1 if op[0] == 'L' else -1
                if live < 0:
                    return False
    return True


def extend(seq, ops, depth, reduced):
    if not useful(seq, reduced):
        return
    yield tuple(seq)
    if len(seq) < depth:
        for op in ops:
            yield from extend(seq + [op], ops, depth, reduced)


_dir = []


def directory():
    if not _dir or not os.path.isdir(_dir[0]):
        _dir[:] = [scratch()]
    else:
        for entry in os.scandir(_dir[0]):
            os.unlink(entry.path)
    return _dir[0]


def perform(c, mem, ref, op, reopen, query):
    if op[0] == 'score':
        c.spamprob(list(query), True) if ref.sane() else \
            [c._wordinfoget(w) for w in query]
    elif op[0] == 'store':
        c.store()
    elif op[0] == 'load':
        c.store()
        c.load()
    elif op[0] == 'reopen':
        c.store()
        c.close()
        c = reopen()
    else:
        what, spam, m = op
        ok = what == 'L' or ref.can_unlearn(spam)
        for x in (c, mem):
            try:
                (x.learn if what == 'L' else x.unlearn)(list(m), spam)
            except ValueError:
                if ok:
                    raise
        if what == 'L':
            ref.learn(m, spam)
        else:
            ref.unlearn(m, spam)
    return c


def compare(c, mem, ref, vocabulary, queries, what):
    check_counts(c, ref, vocabulary, what)
    if ref.sane():
        for q in queries:
            got = c.spamprob(list(q), True)
            check_score(c, ref, q, result=got, what=what + ' score')
            check_same(got, mem.spamprob(list(q), True), what + ' score')


def large(case, rec, d):
    """Many words in use, with and without saves."""
    from sbclassifier.classifiers import Classifier
    _, backend, n, order = case
    words = [b'w%d' % i if i % 2 else 'w%d' % i for i in range(n)]
    half = words[:n // 2]
    steps = {'train': [('L', True, words), ('L', True, words),
                       ('L', False, half)],
             'save': [('store',)], 'load': [('load',)],
             'reopen': [('reopen',)],
             'more': [('L', True, half), ('score',), ('L', False, words)],
             'less': [('U', True, words), ('score',), ('U', False, half),
                      ('U', True, half[:-1])]}
    mem, ref = Classifier(), Ref()
    c = stores.open_store(backend, d)
    for name in order:
        for op in steps[name]:
            c = perform(c, mem, ref, op,
                        lambda: stores.open_store(backend, d), words)
            rec.step()
    queries = [words, words[::97], words[-3:]]
    compare(c, mem, ref, words, queries, '%s, %d words' % (backend, n))
    c.store()
    c.close()
    c = stores.open_store(backend, d)
    compare(c, mem, ref, words, queries,
            '%s, %d words, reopened' % (backend, n))
    need_equal(stores.known_words(c), set(ref.words), 'known words')
    rec.state((backend, n, order))
    c.close()


def judge(case, rec):
    from sbclassifier.classifiers import Classifier
    d = directory()
    if case[0] == 'large':
        return large(case, rec, d)
    if case[0] == 'cycle':
        return cycle(case, rec, d)
    backend, name, seq = case
    mem, ref = Classifier(), Ref()
    queries = QUERIES[name]
    vocabulary = {w for m in MESSAGES[name] for w in m} | {
        w for q in queries for w in q}
    c = stores.open_store(backend, d)
    for op in seq:
        c = perform(c, mem, ref, op,
                    lambda: stores.open_store(backend, d), queries[-1])
        rec.step()
    rec.state((backend, ref.state()))
    compare(c, mem, ref, vocabulary, queries, backend)
    c.store()
    c.close()
    c = stores.open_store(backend, d)
    compare(c, mem, ref, vocabulary, queries, backend + ' reopened')
    need_equal(stores.known_words(c), set(ref.words),
               backend + ' reopened: known words')
    c.close()


def cycle(case, rec, d):
    """Long histories with periodic saves of many words."""
    from sbclassifier.classifiers import Classifier
    _, backend, period, k = case
    mem, ref = Classifier(), Ref()
    words = [b'w%d' % i for i in range(12)]
    c = stores.open_store(backend, d)
    n = 0
    for round in range(4):
        for what in 'LU':
            for i in range(12):
                m = words[i:i + 1 + (i * k) % 5] + words[:k % 3]
                spam = (i + k) % 3 != 0
                if what == 'U' and (i + round) % 4 == 0:
                    continue
                if what == 'U' and not ref.can_unlearn(spam):
                    continue
                c = perform(c, mem, ref, (what, spam, m), None, words)
                n += 1
                rec.step()
                if n % period == 0:
                    c = perform(c, mem, ref, CONTROL[1 + n // period % 3],
                                lambda: stores.open_store(backend, d), words)
    compare(c, mem, ref, words, [words, words[3:6]], backend)
    c.store()
    c.close()
    c = stores.open_store(backend, d)
    compare(c, mem, ref, words, [words, words[3:6]], backend + ' reopened')
    need_equal(stores.known_words(c), set(ref.words), 'known words')
    rec.state((backend, ref.state()))
    c.close()
