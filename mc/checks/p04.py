"""P04: an unreadable database is never mistaken for an empty one."""
import errno
import os
import pickle
import shelve

from mc import core, faults, stores, vclock
from mc.checks.p03 import clear_locks, counts, fill_new, lock_names, make, \
    all_words, count, TOTALS
from mc.core import Violation, need, need_equal, show

PROPERTY = 'P04'
LEVEL = 'fault_enumeration'
RULE = ('every truncation length of pickle and constant databases of several '
        'sizes (all lengths of the small ones), foreign contents of every '
        'kind the neighbours of the format produce, each on every backend; '
        'every operation of an open made to fail once, or from there on, '
        'with EACCES, EIO or EMFILE; a lock held by another process. '
        'Non-trivial: the database holds training.')
ASSUMPTIONS = ['the lock of a live process is not broken',
               'what Berkeley DB makes of failing reads of a file it could '
               'open is its own affair']

ERRORS = (errno.EACCES, errno.EIO, errno.EMFILE)


def before_import():
    faults.ensure_preloaded()


def setup():
    vclock.install()


def content(b, size):
    with core.Scratch() as top:
        d = os.path.join(top, 'd')
        make(b, d, size)
        return stores.files(d)


def units(tier, seed):
    t = tier == 'thorough'
    result = []
    for b in ('pickle', 'cdb'):
        for size in ('small', 'other', 'deep', 'big'):
            step = 1 if size != 'big' or t else 23
            result += [('cut', b, size, k, step) for k in range(8)]
    for b in stores.BACKENDS:
        result.append(('foreign', b))
        for size in ('small', 'other', 'big') if t else ('small', 'other'):
            result.append(('fail', b, size))
        result.append(('missing', b))
        if b != 'shelve':
            result.append(('fail', b, 'none'))
        if b != 'shelve':
            result += [('locked', b, s) for s in ('small', 'big')]
    return result


def explore(unit, rec):
    kind, b = unit[:2]
    if kind == 'cut':
        _, _, size, k, step = unit
        for n in range(k * step, len(contents_of(b, size)), 8 * step):
            rec.run(('cut', b, size, n))
    elif kind == 'foreign':
        for name in sorted(FOREIGN):
            if applies(name, b):
                rec.run(('foreign', b, name))
    elif kind == 'fail':
        size = unit[2]
        with core.Scratch() as top:
            ops = opening(b, top, size, faults.COUNT, 0, 0)[2]
        for o in faults.operations(ops):
            if b == 'shelve' and o.kind not in ('open', 'stat'):
                continue        # Berkeley DB dies, spins or starts afresh
            for mode in (faults.FAIL, faults.FAILALL):
                for e in ERRORS:
                    if b == 'shelve' and e != errno.EACCES:
                        continue        # waited out for seconds
                    rec.run(('fail', b, size, mode, o.n, e))
    else:
        rec.run(unit)


# ----------------------------------------------------------- foreign contents
def pickled(value, protocol=4):
    return pickle.dumps(value, protocol)


class Versioned:
    """Pickles as a classifier object with the given state."""
    def __init__(self, state):
        self.state = state

    def __reduce__(self):
        from sbclassifier.classifiers.storage import PickleClassifier
        return object.__new__, (PickleClassifier,), self.state


def version():
    from sbclassifier.classifiers.basic import PICKLE_VERSION
    return PICKLE_VERSION


def word_info():
    from sbclassifier.classifiers.basic import WordInfo
    w = WordInfo()
    w.spamcount, w.hamcount = 1, 2
    return w


def cdb_of(items):
    import io
    from sbclassifier import cdb
    f = io.BytesIO()
    cdb.cdb_make(f, items)
    return f.getvalue()


def other(b, size='small'):
    return content(b, size)['db']


def dbm_file(contents):
    with core.Scratch() as top:
        db = shelve.open(os.path.join(top, 'db'))
        for k, v in contents.items():
            db[k] = v
        db.close()
        return stores.files(top)


STATE = 'saved state'

# name -> (backends, function returning file contents or a dictionary of them)
FOREIGN = {
    'nothing in it': (('pickle', 'cdb'), lambda: b''),
    'one newline': (None, lambda: b'\n'),
    'text': (None, lambda: b'From: a@example.com\nSubject: hello\n\nhi\n' * 3),
    'long text': (None, lambda: b'lorem ipsum dolor sit amet\n' * 300),
    'zeros': (None, lambda: bytes(5000)),
    'ones': (None, lambda: b'\xff' * 5000),
    'eight zeros': (None, lambda: bytes(8)),
    'a header only': (None, lambda: b'\0\x08\0\0\0\0\0\0' * 255),
    'pickled dict': (None, lambda: pickled({b'a': (1, 1)})),
    'pickled empty dict': (None, lambda: pickled({})),
    'pickled list': (None, lambda: pickled([1, 2, 3])),
    'pickled empty tuple': (None, lambda: pickled(())),
    'pickled tuple': (None, lambda: pickled((version(), {}, 0, 0))),
    'pickled int': (None, lambda: pickled(7)),
    'pickled text': (None, lambda: pickled('classifier')),
    'pickled None': (None, lambda: pickled(None)),
    'pickled WordInfo': (None, lambda: pickled(word_info())),
    'pickled unknown class': (None, lambda: b'cno.such.module\nThing\n.'),
    'older version': (('pickle',), lambda: pickled(Versioned(
        (version() - 1, {}, 0, 0)))),
    'newer version': (('pickle',), lambda: pickled(Versioned(
        (version() + 1, {}, 0, 0)))),
    'text version': (('pickle',), lambda: pickled(Versioned(
        (str(version()), {}, 0, 0)))),
    'no version': (('pickle',), lambda: pickled(Versioned(({}, 1, 1)))),
    'short state': (('pickle',), lambda: pickled(Versioned((version(), {})))),
    'empty state': (('pickle',), lambda: pickled(Versioned(()))),
    'a constant database': (('pickle', 'shelve'), lambda: other('cdb')),
    'a pickle': (('cdb', 'shelve'), lambda: other('pickle')),
    'a big pickle': (('cdb', 'shelve'), lambda: other('pickle', 'big')),
    'cdb without state': (('cdb',), lambda: cdb_of([('a', '1,1')])),
    'empty cdb': (('cdb',), lambda: cdb_of([])),
    'cdb with other values': (('cdb',), lambda: cdb_of(
        [(STATE, '1,1'), ('a', 'hello')])),
    'cdb with short values': (('cdb',), lambda: cdb_of(
        [(STATE, '1,1'), ('a', '1')])),
    'cdb with long values': (('cdb',), lambda: cdb_of(
        [(STATE, '1,1'), ('a', '1,1,1')])),
    'cdb with empty state': (('cdb',), lambda: cdb_of([(STATE, '')])),
    'cdb with text state': (('cdb',), lambda: cdb_of([(STATE, 'x,y')])),
    'cdb with short state': (('cdb',), lambda: cdb_of([(STATE, '1')])),
    'cdb with long state': (('cdb',), lambda: cdb_of([(STATE, '1,2,3')])),
    'cdb with other keys': (('cdb',), lambda: cdb_of(
        [(b'\xff\xfe', '1,1'), (b'x', b'\xff')])),
    'shelf of others': (('shelve',), lambda: dbm_file({'a': 1})),
    'shelf of words': (('shelve',), lambda: dbm_file({'a': (1, 1)})),
    'shelf, older': (('shelve',), lambda: dbm_file(
        {STATE: (version() - 1, 1, 1), 'a': (1, 1)})),
    'shelf, newer': (('shelve',), lambda: dbm_file(
        {STATE: (version() + 1, 1, 1)})),
    'shelf, no version': (('shelve',), lambda: dbm_file({STATE: (1, 1)})),
    'shelf, short': (('shelve',), lambda: dbm_file({STATE: (version(),)})),
    'shelf, shorter': (('shelve',), lambda: dbm_file({STATE: (version(), 3)})),
    'shelf, long': (('shelve',), lambda: dbm_file(
        {STATE: (version(), 1, 1, 1)})),
    'shelf, None': (('shelve',), lambda: dbm_file({STATE: None})),
    'shelf, text': (('shelve',), lambda: dbm_file({STATE: 'hello'})),
    'shelf, not pickled': (('shelve',), lambda: raw_shelf(b'hello')),
    'shelf, empty value': (('shelve',), lambda: raw_shelf(b'')),
}


def raw_shelf(value):
    import dbm
    with core.Scratch() as top:
        db = dbm.open(os.path.join(top, 'db'), 'c')
        db[STATE.encode()] = value
        db.close()
        return stores.files(top)


def applies(name, b):
    return FOREIGN[name][0] is None or b in FOREIGN[name][0]


# -------------------------------------------------------------------- opening
def snapshot(c):
    """What the classifier knows, as a sorted list."""
    known = {}
    for w in set(all_words()) | set(c.wordinfo):
        if any(count(c, w)):
            known[w] = count(c, w)
    return (c.nspam, c.nham), sorted(known.items(), key=repr)


def expected(size):
    return TOTALS[size], sorted(((w, n) for w, n in counts(size).items()),
                                key=repr)


def opening(b, top, size, mode, n, err):
    """Open a database of this size with a fault; the value tells what was
    seen."""
    d = os.path.join(top, 'd')
    make(b, d, size) if size != 'missing' else os.makedirs(d)

    def action():
        c = stores.open_store(b, d)
        return core.digest(repr(snapshot(c)))

    return faults.run(d, action, mode, n, err) + (d,)


def judge(case, rec):
    with core.Scratch() as top:
        globals()['judge_' + case[0]](case, rec, top)


def try_open(b, d):
    try:
        c = stores.open_store(b, d)
    except Exception as e:
        return None, e
    try:
        return snapshot(c), None
    finally:
        c.close()


def judge_cut(case, rec, top):
    _, b, size, n = case
    whole = contents_of(b, size)
    d = os.path.join(top, 'd')
    os.makedirs(d)
    with open(os.path.join(d, 'db'), 'wb') as f:
        f.write(whole[:n])
    seen, error = try_open(b, d)
    need(error is not None or seen == expected(size),
         '{} of {} bytes cut to {} opens as {}', b, len(whole), n, show(seen))
    need_equal(stores.files(d), {'db': whole[:n]},
               '%s cut to %d bytes: files after the open' % (b, n))


_contents = {}


def contents_of(b, size):
    if (b, size) not in _contents:
        _contents[b, size] = other(b, size)
    return _contents[b, size]


def judge_foreign(case, rec, top):
    _, b, name = case
    data = FOREIGN[name][1]()
    d = os.path.join(top, 'd')
    os.makedirs(d)
    if not isinstance(data, dict):
        target = 'db' if b != 'shelve' else shelf_name()
        data = {target: data}
    for file, x in data.items():
        with open(os.path.join(d, file), 'wb') as f:
            f.write(x)
    seen, error = try_open(b, d)
    need(error is not None, '{} opens {} as {}', b, name, show(seen))
    # A second attempt tells the same.
    seen, error = try_open(b, d)
    need(error is not None, '{} opens {} the second time as {}', b, name,
         show(seen))
    need_equal({k: core.digest(v) for k, v in stores.files(d).items()},
               {k: core.digest(v) for k, v in data.items()},
               '%s after opening %s: files' % (b, name))


def shelf_name():
    names = list(dbm_file({'a': 1}))
    need(len(names) >= 1, 'no shelf file')
    return sorted(names)[0]


def judge_fail(case, rec, top):
    _, b, size, mode, n, err = case
    outcome, value, ops, d = opening(b, top, size, mode, n, err)
    what = '%s %s when operation %d of the open%s fails with %s' % (
        b, size, n, '' if mode == faults.FAIL else ' and the following',
        errno.errorcode[err])
    if outcome == 'ok':
        need_equal(value, repr(core.digest(repr(expected(size)))),
                   what + ': what it shows')
    else:
        # (Berkeley DB itself dies of some faults.)
        need(outcome == 'error' or b == 'shelve' and outcome == 'killed',
             '{}: {}', what, outcome)
    clear_locks(d)
    seen, error = try_open(b, d)
    need(error is None, '{}: then it cannot be opened: {}', what, error)
    need_equal(seen, expected(size), what + ': opened again')


def judge_missing(case, rec, top):
    b = case[1]
    d = os.path.join(top, 'd')
    os.makedirs(d)
    seen, error = try_open(b, d)
    need(error is None, '{}: a new classifier cannot be opened: {}', b, error)
    need_equal(seen, ((0, 0), []), b + ': a new classifier')
    c = stores.open_store(b, d)
    c.learn([b'a'], True)
    c.store()
    c.close()
    seen, error = try_open(b, d)
    need_equal(seen, ((1, 0), [(b'a', (1, 0))]), b + ': reopened')
    # A missing directory is not a new classifier that can be saved.
    c = None
    try:
        c = stores.open_store(b, os.path.join(d, 'none'))
    except Exception:
        pass
    if c is not None:
        need_equal((c.nspam, c.nham, len(c.wordinfo)), (0, 0, 0),
                   b + ' in a missing directory')


def judge_locked(case, rec, top):
    """Another process holds the lock for good."""
    _, b, size = case
    d = os.path.join(top, 'd')
    make(b, d, size)
    path = os.path.join(d, 'db')
    from lockfile import FileLock
    with open(path + '.lock', 'w'):
        pass
    before = stores.files(d)
    seen, error = try_open(b, d)
    need(error is not None or seen == expected(size),
         '{}: opened while locked as {}', b, show(seen))
    need_equal(stores.files(d), before, b + ' locked: files')
    FileLock(path).break_lock()
    seen, error = try_open(b, d)
    need(error is None, '{}: after the lock was released: {}', b, error)
    need_equal(seen, expected(size), b + ': after the lock was released')
