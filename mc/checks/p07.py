"""P07: loading again reads what the file holds now, whoever wrote it."""
import itertools
import os

from mc import stores
from mc.core import need_equal, scratch
from mc.ref import Ref, check_counts, check_same, check_score

PROPERTY = 'P07'
LEVEL = 'model_checking'
RULE = ('two classifiers on one file: every sequence up to a depth of '
        'train/untrain, score, store and load on either (for the shelf, '
        'whose unsaved training is already partly in the file, only those '
        'in which one waits until the other has stored and it has loaded '
        'that), after each of three beginnings; then '
        'each is compared with the model, loads again and is compared with '
        'the file\'s model, an in-memory classifier and one opened freshly; and '
        'every sequence of one classifier that loads again with training '
        'that is not saved. '
        'Non-trivial: all.')
ASSUMPTIONS = ['one process; the classifiers take turns']

A, B = b'a', b'b'
TRAIN = [('L', True, (A,)), ('U', True, (A,)), ('L', False, (B,))]
CONTROL = [('score',), ('store',), ('load',)]
OPS = [(x,) + op for x in (0, 1) for op in TRAIN + CONTROL]
QUERIES = [(A,), (A, B, b'zz')]
VOCABULARY = (A, B, b'zz')
BEGINNINGS = {
    'new': [],
    'saved': [(0, 'L', True, (A,)), (0, 'L', False, (A, B)), (0, 'store'),
              (1, 'load'), (1, 'score')],
    'singletons': [(0, 'L', True, (A, B)), (0, 'store'), (1, 'load'),
                   (1, 'score'), (1, 'U', True, (A, B)), (1, 'store'),
                   (0, 'load'), (0, 'score')],
}


# training of one classifier that may not be saved when it loads again
DIRTY = [('L', True, (A,)), ('U', True, (A,)), ('L', False, (A, B)),
         ('U', False, (B,)), ('store',), ('load',)]


def units(tier, seed):
    depth = {'pickle': 4, 'shelve': 5, 'cdb': 4}
    more = 1 if tier == 'thorough' else 0
    return [(b, name, depth[b] + more, op, op2)
            for b in stores.BACKENDS for name in BEGINNINGS
            for op in OPS for op2 in OPS] + [
        ('dirty', b, op, 5 + more) for b in stores.BACKENDS
        for op in range(len(DIRTY))]


class Model:
    """Two in-memory states and the file's."""

    def __init__(self, shelf):
        self.shelf = shelf
        self.file = Ref()
        self.mem = [Ref(), Ref()]
        self.version = 0
        self.seen = [0, 0]
        self.dirty = [False, False]

    def allowed(self, op):
        x, what = op[:2]
        if what == 'U' and not self.mem[x].can_unlearn(op[2]):
            return False
        if not self.shelf:
            return True
        if self.dirty[1 - x]:
            return False
        if what == 'load':
            return not self.dirty[x]
        return self.seen[x] == self.version

    def apply(self, op):
        x, what = op[:2]
        if what == 'store':
            self.file = self.mem[x].copy()
            self.version += 1
            self.seen[x] = self.version
            self.dirty[x] = False
        elif what == 'load':
            self.mem[x] = self.file.copy()
            self.seen[x] = self.version
            self.dirty[x] = False
        elif what == 'L':
            self.mem[x].learn(op[3], op[2])
            self.dirty[x] = True
        elif what == 'U':
            self.mem[x].unlearn(op[3], op[2])
            self.dirty[x] = True


def start(backend, name):
    m = Model(backend == 'shelve')
    for op in BEGINNINGS[name]:
        assert m.allowed(op), op
        m.apply(op)
    return m


def explore(unit, rec):
    if unit[0] == 'dirty':
        _, b, op, depth = unit
        for n in range(depth):
            for rest in itertools.product(range(len(DIRTY)), repeat=n):
                seq = (op,) + rest + (DIRTY.index(('load',)),)
                if not any(x > 3 and x == y for x, y in zip(seq, seq[1:])):
                    rec.run(('dirty', b, seq))
        return
    backend, name, depth, op, op2 = unit
    if op2 == OPS[0] and useful(backend, name, [op]):
        rec.run((backend, name, (op,)))
    for seq in extend(backend, name, [op, op2], depth):
        rec.run((backend, name, tuple(seq)))


def useful(backend, name, seq):
    """False for sequences that are not allowed or that a shorter or
    equivalent one covers."""
    m = start(backend, name)
    if name == 'new' and seq[0][0] == 1:
        return False
    for op in seq:
        if not m.allowed(op):
            return False
        m.apply(op)
    for p, q in zip(seq, seq[1:]):
        if p == q and len(p) == 2:
            return False                # twice score, store or load
        if p[1] == 'score' and q[1] == 'score' and p[0] > q[0]:
            return False                # these commute
        if p[0] == 1 and q[0] == 0 and not {'store', 'load'} & {p[1], q[1]} \
                and backend != 'shelve':
            return False                # and so do these
    return True


def extend(backend, name, seq, depth):
    if not useful(backend, name, seq):
        return
    yield seq
    if len(seq) < depth:
        for op in OPS:
            yield from extend(backend, name, seq + [op], depth)


_dir = []


def directory():
    if not _dir or not os.path.isdir(_dir[0]):
        _dir[:] = [scratch()]
    for entry in os.scandir(_dir[0]):
        os.unlink(entry.path)
    return _dir[0]


def perform(cs, op):
    c, what = cs[op[0]], op[1]
    if what == 'store':
        c.store()
    elif what == 'load':
        c.load()
    elif what == 'score':
        c.spamprob(list(QUERIES[1]))
    elif what == 'L':
        c.learn(list(op[3]), op[2])
    else:
        c.unlearn(list(op[3]), op[2])


def compare(c, ref, what):
    check_counts(c, ref, VOCABULARY, what)
    if ref.sane():
        for q in QUERIES:
            check_score(c, ref, q, result=c.spamprob(list(q), True),
                        what=what + ' score')


def judge_dirty(case, rec):
    """Training that is not saved may be gone after loading again, but what
    the classifier shows is what the file holds."""
    _, backend, seq = case
    d = directory()
    c = stores.open_store(backend, d)
    for op in seq:
        op = DIRTY[op]
        if op[0] == 'U' and not (c.nspam if op[1] else c.nham):
            continue
        perform([c], (0,) + op)
        rec.step()
        if op[0] == 'load':
            fresh = stores.open_store(backend, d)
            shown, held = [
                ((x.nspam, x.nham), [
                    (r.spamcount, r.hamcount) if r else None
                    for r in map(x._wordinfoget, VOCABULARY)])
                for x in (c, fresh)]
            fresh.close()
            need_equal(shown, held, backend + ' loaded again, and opened')
    rec.state((backend, shown[0], tuple(map(str, shown[1]))))
    c.close()


def judge(case, rec):
    if case[0] == 'dirty':
        return judge_dirty(case, rec)
    backend, name, seq = case
    d = directory()
    shelf = backend == 'shelve'
    m = Model(shelf)
    cs = [stores.open_store(backend, d), stores.open_store(backend, d)]
    for op in BEGINNINGS[name] + list(seq):
        # Words and totals must be possible for scores to be defined.
        if op[1] != 'score' or m.mem[op[0]].sane():
            perform(cs, op)
        m.apply(op)
        rec.step()
    rec.state((backend, m.file.state(), m.mem[0].state(), m.mem[1].state()))
    for x in (0, 1):
        if not shelf or m.seen[x] == m.version and not m.dirty[1 - x]:
            compare(cs[x], m.mem[x], '%s %d' % (backend, x))
    if shelf and True in m.dirty:
        x = m.dirty.index(True)
        perform(cs, (x, 'store'))
        m.apply((x, 'store'))
    for x in (0, 1):
        cs[x].load()
        compare(cs[x], m.file, '%s %d loaded again' % (backend, x))
        need_equal(stores.known_words(cs[x]), set(m.file.words),
                   '%s %d loaded again: known words' % (backend, x))
    c = stores.open_store(backend, d)
    compare(c, m.file, backend + ' opened')
    for q in QUERIES if m.file.sane() else ():
        for x in (0, 1):
            check_same(cs[x].spamprob(list(q), True),
                       c.spamprob(list(q), True), 'score')
    for x in cs + [c]:
        x.close()
