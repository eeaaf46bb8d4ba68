"""P03: a crash during saving never loses the last completed save."""
import errno
import itertools
import os
import shutil

from mc import core, faults, stores, vclock
from mc.core import Violation, need

PROPERTY = 'P03'
LEVEL = 'fault_enumeration'
RULE = ('every file operation of a save is a crash point (every write also '
        'torn after 1 byte, half and all but one byte), with unsynced data '
        'kept, lost, half lost or zeroed; every file operation of a save is '
        'also made to fail with EIO, ENOSPC or EACCES. Several old/new '
        'states per backend, also crashes of two saves in a row; every '
        'history of up to three (thorough: four) messages trained, untrained '
        'or saved before the last save and the death of the process. '
        'Non-trivial: the crash or fault happens.')
ASSUMPTIONS = ['renames are atomic and ordered after synced data',
               'lock files of a dead process are cleared before reopening']

SIZES = ('none', 'small', 'other', 'big', 'huge')


def before_import():
    faults.ensure_preloaded()


def setup():
    vclock.install()


def pairs(tier):
    base = [('none', 'small'), ('small', 'other'), ('small', 'big'),
            ('big', 'small')]
    if tier == 'thorough':
        base += [('none', 'huge'), ('huge', 'big'), ('other', 'huge'),
                 ('small', 'small')]
    return base


def units(tier, seed):
    t = tier == 'thorough'
    result = []
    for b in ('pickle', 'cdb'):
        for old, new in pairs(tier):
            result.append(('crash', b, old, new))
            result.append(('fail', b, old, new))
        result.append(('again', b, t))
    for b in stores.BACKENDS:
        for old, new in pairs(tier):
            result.append(('return', b, old, new))
        for first in range(len(MESSAGES)):
            result.append(('history', b, first, 4 if t else 3))
    for old in ('none', 'small'):
        result.append(('value', old))
    return result


# what happens before the last save; None is another save
MESSAGES = [(b'a',), (), (b'a', 'b', b'c'), ('-', b'a'), ('-',), None]


def explore(unit, rec):
    kind, b = unit[:2]
    if kind == 'history':
        for n in range(unit[3]):
            for rest in itertools.product(range(len(MESSAGES)), repeat=n):
                for label in (True, False) if n < 2 else (True,):
                    rec.run(('history', b, (unit[2],) + rest, label))
        return
    if kind == 'crash':
        _, _, old, new = unit
        with core.Scratch() as top:
            ops = recorded(top, b, old, new)
        for mode, n, arg in faults.crash_points(ops):
            rec.run(('crash', b, old, new, mode, n, arg))
    elif kind == 'fail':
        _, _, old, new = unit
        with core.Scratch() as top:
            ops = recorded(top, b, old, new)
        for o in faults.operations(ops):
            for e in (errno.EIO, errno.ENOSPC, errno.EACCES):
                rec.run(('fail', b, old, new, o.n, e))
    elif kind == 'again':
        with core.Scratch() as top:
            ops = recorded(top, b, 'small', 'other')
            ops2 = recorded(top, b, 'other', 'big')
        for mode, n, arg in faults.crash_points(ops):
            for mode2, n2, arg2 in faults.crash_points(ops2):
                if unit[2] or (n + n2) % 5 == 0:
                    rec.run(('again', b, mode, n, arg, mode2, n2, arg2))
    elif kind == 'return':
        for after in ('nothing', 'score', 'train'):
            rec.run(unit + (after,))
    else:
        for position in ('first', 'last'):
            rec.run(('value', unit[1], position))


def counts(size):
    """word -> (spam, ham)"""
    if size == 'none':
        return {}
    if size == 'small':
        return {b'a': (1, 1), b'b': (1, 0)}
    if size == 'other':
        return {b'a': (2, 0), b'c': (0, 3), 'text': (2, 3)}
    if size == 'deep':
        return {b'a': (1, 1), b'deep': (12, 123)}
    n = 1200 if size == 'big' else 6000
    return {b'word%d' % i: (i % 3 + 1, i % 4) for i in range(n)}


TOTALS = {'none': (0, 0), 'deep': (12, 123), 'small': (1, 1), 'other': (2, 3), 'big': (3, 3),
          'huge': (3, 3)}


def fill(c, size):
    """Make classifier c hold exactly this state, by training."""
    for is_spam in (True, False):
        while (c.nspam if is_spam else c.nham) > 0:
            i = 0 if is_spam else 1
            n = c.nspam if is_spam else c.nham
            c.unlearn([w for w in all_words() if count(c, w)[i] >= n],
                      is_spam)
    want = counts(size)
    for i, is_spam in ((0, True), (1, False)):
        for k in range(TOTALS[size][i]):
            c.learn([w for w, n in want.items() if n[i] > k], is_spam)


_words = []


def all_words():
    if not _words:
        for s in ('small', 'other', 'deep', 'big', 'huge'):
            _words.extend(set(counts(s)) - set(_words))
    return _words


def count(c, w):
    r = c._wordinfoget(w)
    return (0, 0) if r is None else (r.spamcount, r.hamcount)


def make(b, directory, size):
    """A directory with a completed save of this state."""
    os.makedirs(directory)
    if size == 'none':
        return
    c = stores.open_store(b, directory)
    fill_new(c, size)
    c.store()
    c.close()


def fill_new(c, size):
    want = counts(size)
    for i, is_spam in ((0, True), (1, False)):
        for k in range(TOTALS[size][i]):
            c.learn([w for w, n in want.items() if n[i] > k], is_spam)


def saver(b, directory, old, new):
    """An action that saves state new; opened and trained beforehand."""
    c = stores.open_store(b, directory)
    if old == 'none':
        fill_new(c, new)
    else:
        c.wordinfo = {}
        c.nspam = c.nham = 0
        fill_new(c, new)
    return c


def recorded(top, b, old, new):
    d = os.path.join(top, 'rec')
    make(b, d, old)
    c = saver(b, d, old, new)
    outcome, value, ops = faults.run(d, c.store)
    shutil.rmtree(d)
    if outcome != 'ok':
        raise Violation('saving fails: ' + value)
    return ops


def state_of(b, directory):
    """The size name whose state the saved classifier holds, or a
    description."""
    c = stores.open_store(b, directory)
    try:
        words = stores.known_words(c)
        got = {w: count(c, w) for w in words}
        for size in SIZES:
            if got == counts(size) and (c.nspam, c.nham) == TOTALS[size]:
                return size
        return 'an unknown state with %d words, totals %s' % (
            len(got), (c.nspam, c.nham))
    finally:
        c.close()


def names(directory):
    return sorted(os.listdir(directory))


def clear_locks(directory):
    """Lock files are empty files beside the database."""
    for name in os.listdir(directory):
        path = os.path.join(directory, name)
        if name != 'db' and os.path.getsize(path) == 0:
            os.unlink(path)


def lock_names(directory):
    from lockfile import FileLock
    lock = FileLock(os.path.join(directory, 'db'))
    return {os.path.basename(lock.lock_file)}, \
        os.path.basename(lock.unique_name).split('.')[0]


def is_lock(name, directory):
    locks, host = lock_names(directory)
    return name in locks or name.startswith(host)


def check_reopen(b, directory, allowed, what):
    try:
        got = state_of(b, directory)
    except Exception as e:
        raise Violation('%s %s: reopening fails: %s'
                        % (b, what, core.describe(e)))
    need(got in allowed, '{} {}: reopening shows {}, not one of {}', b, what,
         got, allowed)
    return got


def judge(case, rec):
    with core.Scratch() as top:
        globals()['judge_' + case[0]](case, rec, top)


def judge_crash(case, rec, top):
    _, b, old, new, mode, n, arg = case
    d = os.path.join(top, 'd')
    make(b, d, old)
    c = saver(b, d, old, new)
    outcome, value, ops = faults.run(d, c.store, mode, n, arg)
    need(outcome == 'crash', 'the save did not reach operation {}: {} {}', n,
         outcome, value)
    c.close()
    what = 'after a crash at %r' % (faults.operations(ops)[-1:],)
    # a crash after the new state is in place
    saved = os.path.join(top, 'saved')
    for variant in faults.lost_write_variants(d, ops):
        rec.eval()
        shutil.rmtree(saved, ignore_errors=True)
        shutil.copytree(d, saved)
        clear_locks(saved)
        check_reopen(b, saved, (old, new), what + ', ' + variant)
        # and the next save works
        c2 = stores.open_store(b, saved)
        c2.learn([b'next'], True)
        totals = c2.nspam, c2.nham
        c2.store()
        c2.close()
        c3 = stores.open_store(b, saved)
        need((c3.nspam, c3.nham) == totals and count(c3, b'next') == (1, 0),
             '{}, {}: the next save is lost', what, variant)
        c3.close()


def judge_again(case, rec, top):
    """The save small -> other crashes, then the save of big crashes."""
    _, b, mode, n, arg, mode2, n2, arg2 = case
    d = os.path.join(top, 'd')
    make(b, d, 'small')
    c = saver(b, d, 'small', 'other')
    faults.run(d, c.store, mode, n, arg)
    c.close()
    clear_locks(d)
    first = check_reopen(b, d, ('small', 'other'), 'after the first crash')
    c = saver(b, d, first, 'big')
    outcome, value, ops = faults.run(d, c.store, mode2, n2, arg2)
    c.close()
    allowed = (first, 'big') if outcome == 'crash' else ('big',)
    need(outcome != 'error', 'the save after a crash fails: {}', value)
    for variant in faults.lost_write_variants(d, ops):
        rec.eval()
        saved = os.path.join(top, 'saved')
        shutil.rmtree(saved, ignore_errors=True)
        shutil.copytree(d, saved)
        clear_locks(saved)
        check_reopen(b, saved, allowed, 'after the second crash')


def judge_fail(case, rec, top):
    _, b, old, new, n, err = case
    d = os.path.join(top, 'd')
    make(b, d, old)
    before = stores.files(d)
    c = saver(b, d, old, new)
    outcome, value, ops = faults.run(d, c.store, faults.FAIL, n, err)
    c.close()
    done = [o for o in faults.operations(ops) if o.n == n]
    need(done, 'the save did not reach operation {}', n)
    op = done[0]
    if not op.path:
        opened = [o for o in faults.operations(ops)
                  if o.n < n and o.kind == 'open']
        op.path = opened[-1].path if opened else ''
    lock = is_lock(op.path, d)
    what = 'when operation %r fails with %s' % (op, errno.errorcode[err])
    replaced = any(o.kind == 'named' and o.path == 'db' and o.n < n
                   for o in ops)
    if outcome == 'ok':
        allowed = (new,)
    elif replaced:
        allowed = (old, new)
    else:
        allowed = (old,)
    left = [x for x in names(d) if x != 'db' and not (lock and is_lock(x, d))]
    need(not left, '{} {}: files left: {}', b, what, left)
    clear_locks(d)
    if allowed == (old,):
        need(stores.files(d) == before,
             '{} {}: the previous save was changed', b, what)
    check_reopen(b, d, allowed, what)
    c = saver(b, d, 'small', 'other')
    c.store()
    c.close()
    check_reopen(b, d, ('other',), what + ', after the next save')
    need(names(d) == ['db'], '{} {}: files left by the next save: {}', b,
         what, names(d))


def judge_return(case, rec, top):
    _, b, old, new, after = case
    d = os.path.join(top, 'd')
    make(b, d, old)

    def action():
        c = stores.open_store(b, d)
        fill(c, new) if b == 'shelve' and old != 'none' else \
            refill(c, new)
        c.store()
        if after == 'score':
            c.spamprob([b'a', b'b', b'zz'])
        elif after == 'train' and b != 'shelve':
            c.learn([b'a', b'lost'], True)
        os._exit(faults.CRASHED)

    outcome, value, _ = faults.run(d, action)
    need(outcome == 'crash', 'saving fails: {}', value)
    clear_locks(d) if b != 'shelve' else None
    check_reopen(b, d, (new,), 'after a save and then the death of the '
                 'process')


def judge_history(case, rec, top):
    _, b, ops, label = case
    d = os.path.join(top, 'd')
    os.makedirs(d)
    totals, words = [0, 0], {}
    script = []
    for i in ops:
        m = MESSAGES[i]
        i = 0 if label else 1
        if m is None:
            script.append(None)
        elif m[:1] == ('-',):
            # only what was trained is untrained
            if totals[i] == 0 or any(words.get(w, 0) == 0 for w in m[1:]):
                return
            totals[i] -= 1
            for w in m[1:]:
                words[w] -= 1
            script.append((False, m[1:]))
        else:
            totals[i] += 1
            for w in m:
                words[w] = words.get(w, 0) + 1
            script.append((True, m))

    def action():
        c = stores.open_store(b, d)
        for step in script:
            if step is None:
                c.store()
            else:
                (c.learn if step[0] else c.unlearn)(step[1], label)
        c.store()
        os._exit(faults.CRASHED)

    outcome, value, _ = faults.run(d, action)
    need(outcome == 'crash', 'saving fails: {}', value)
    c = stores.open_store(b, d)
    try:
        got = {w: count(c, w)[0 if label else 1]
               for w in stores.known_words(c)}
        need((c.nspam, c.nham) == tuple(totals)
             and got == {w: n for w, n in words.items() if n},
             'after {} {}, a save and the death of the process: totals {}, '
             'words {}', 'spam' if label else 'ham', script,
             (c.nspam, c.nham), got)
    finally:
        c.close()


def refill(c, new):
    c.wordinfo = {}
    c.nspam = c.nham = 0
    fill_new(c, new)


class Unpicklable:
    def __reduce__(self):
        raise TypeError('cannot be pickled')


def judge_value(case, rec, top):
    from sbclassifier.safepickle import pickle_read, pickle_write
    _, old, position = case
    d = os.path.join(top, 'd')
    os.makedirs(d)
    path = os.path.join(d, 'db')
    if old != 'none':
        pickle_write(path, ['old'])
    before = stores.files(d)
    filler = ['x' * 100 + str(i) for i in range(2000)]
    value = [Unpicklable()] + filler if position == 'first' \
        else filler + [Unpicklable()]
    try:
        pickle_write(path, value)
    except TypeError:
        pass
    else:
        need(False, 'saving an unpicklable value did not fail')
    need(stores.files(d) == before, 'a failed save changed the directory: {} '
         'instead of {}', sorted(stores.files(d)), sorted(before))
    pickle_write(path, filler)
    need(pickle_read(path) == filler, 'the next save is lost')
    need(names(d) == ['db'], 'files left: {}', names(d))
