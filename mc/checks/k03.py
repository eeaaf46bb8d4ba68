"""K03: each corpus change is announced exactly once, and nothing else is."""
import gc
import itertools
import os

from mc import core, mail, vclock
from mc.core import need, need_equal

PROPERTY = 'K03'
LEVEL = 'model_checking'
RULE = ('every sequence up to a depth of announced and silent adds and '
        'removes, refused operations, reads, listings and expiry on two '
        'corpora (in memory, directory with cache 1 or 256, expiring), with '
        'observers of each, of both and of one only; after each step the '
        'notifications received are compared with those due, and each '
        'observer looks at the corpus when notified. Non-trivial: all.')
ASSUMPTIONS = ['only messages that are present are removed']

KINDS = ('memory', 'small memory', 'directory', 'small directory', 'expiring')
OPS = ['add', 'add silent', 'add again', 'remove', 'remove silent',
       'remove read', 'refused', 'refused content', 'read', 'list', 'expire']
OFF = [0, False, None]


def before_import():
    vclock.install(1000000.0)


def units(tier, seed):
    t = tier == 'thorough'
    result = []
    for kinds in itertools.product(KINDS, KINDS):
        depth = 4 if t else 3
        for op in range(2 * len(OPS)):
            result.append(('seq', kinds, depth, op))
    result += [('observers', k, n) for k in KINDS for n in range(1, 6)]
    result += [('gone', k, n) for k in KINDS for n in (1, 2, 30)]
    return result


def explore(unit, rec):
    if unit[0] != 'seq':
        rec.run(unit)
        return
    _, kinds, depth, op = unit
    for rest in itertools.product(range(2 * len(OPS)), repeat=depth - 1):
        seq = (op,) + rest
        if useful(seq, kinds):
            rec.run(('seq', kinds, seq))


def useful(seq, kinds):
    n = len(OPS)
    there = [0, 0]
    for x in seq:
        which, op = divmod(x, n)
        op, kind = OPS[op], kinds[which]
        if op in ('add', 'add silent'):
            there[which] += 1
        elif op.startswith('remove') or op == 'add again':
            if not there[which]:
                return False
            if op != 'add again':
                there[which] -= 1
        elif op == 'expire' and kind != 'expiring':
            return False
        elif op.startswith('refused') and 'memory' in kind:
            return False
    return True


def open_corpus(kind, d):
    from sbclassifier.corpora import Corpus
    from sbclassifier.corpora.caches import NaiveCache
    from sbclassifier.corpora.filesystem import ExpiryFileCorpus, FileCorpus
    if kind == 'memory':
        return Corpus()
    if kind == 'small memory':
        return Corpus(NaiveCache(max_size=1))
    if kind == 'directory':
        return FileCorpus(d)
    if kind == 'small directory':
        return FileCorpus(d, 'm*', cache_size=1)
    return ExpiryFileCorpus(100, d, '*')


class Observer:
    """Records what it hears: (what, corpus, id, present in the corpus)."""
    def __init__(self, sender=None, log=None):
        from sbclassifier.corpora import message_added, message_removed
        self.log = [] if log is None else log
        kw = {} if sender is None else {'sender': sender}
        message_added.connect(self.added, **kw)
        message_removed.connect(self.removed, **kw)

    def added(self, sender, message):
        self.log.append(('added', sender, message, message.id() in sender))

    def removed(self, sender, message):
        self.log.append(('removed', sender, message, message.id() in sender))

    def disconnect(self):
        from sbclassifier.corpora import message_added, message_removed
        message_added.disconnect(self.added)
        message_removed.disconnect(self.removed)


class BadMessage:
    """Cannot be turned into text."""
    def id(self):
        return 'mbad'

    def as_bytes(self):
        raise UnicodeEncodeError('ascii', '\xe9', 0, 1, 'no')


def fresh(d):
    for e in list(os.scandir(d)):
        os.unlink(e.path)


_dirs = []


def directories():
    while len(_dirs) < 2:
        _dirs.append(core.scratch())
    for d in _dirs:
        fresh(d)
    return _dirs


def take(observer):
    got = list(observer.log)
    del observer.log[:]
    return got


def check(observer, due, what):
    """due: (what, corpus, message or None, id)"""
    got = take(observer)
    need_equal([(w, id(c), m.id()) for w, c, m, _ in got],
               [(w, id(c), k) for w, c, m, k in due],
               '%s: notifications' % what)
    for (w, c, m, present), (_, _, message, key) in zip(got, due):
        need(message is None or m is message,
             '{}: the notification carries another message', what)
        need(present == (w == 'added'),
             '{}: when "{}" is announced, the message is {}in the corpus',
             what, w, '' if present else 'not ')


def judge(case, rec):
    vclock.set_time(1000000.0)
    if case[0] != 'seq':
        return globals()['judge_' + case[0]](case, rec)
    _, kinds, seq = case
    dirs = directories()
    corpora = [open_corpus(k, d) for k, d in zip(kinds, dirs)]
    watchers = [Observer(c) for c in corpora]
    everyone = Observer()
    present = [[], []]
    n = 0
    try:
        for x in seq:
            which, op = divmod(x, len(OPS))
            op, c, there = OPS[op], corpora[which], present[which]
            due = []
            if op in ('add', 'add silent'):
                n += 1
                m = mail.message('plain', 'm%d' % n)
                if op == 'add':
                    c.add_message(m)
                    due = [('added', c, m, m.id())]
                else:
                    c.add_message(m, emit_signal=OFF[n % 3])
                if kinds[which] == 'small memory':
                    del there[:]
                there.append(m)
            elif op == 'add again' and there:
                m = there[0]
                c.add_message(m)
                due = [('added', c, m, m.id())]
            elif op == 'remove' and there:
                m = there.pop(0)
                c.remove_message(m)
                due = [('removed', c, m, m.id())]
            elif op == 'remove silent' and there:
                c.remove_message(there.pop(0), emit_signal=OFF[n % 3])
            elif op == 'remove read' and there:
                m = c[there.pop(0).id()]
                c.remove_message(m)
                due = [('removed', c, m, m.id())]
            elif op == 'refused':
                m = mail.message('plain', 'm/../../x')
                try:
                    c.add_message(m)
                except ValueError:
                    pass
                try:
                    c.remove_message(m)
                except ValueError:
                    pass
                if kinds[which] == 'small directory':
                    try:
                        c.add_message(mail.message('plain', 'other'))
                    except ValueError:
                        pass
            elif op == 'refused content':
                try:
                    c.add_message(BadMessage())
                except UnicodeError:
                    pass
                else:
                    need(False, 'a message without text was added')
                need('mbad' not in c, 'a refused message is there')
            elif op == 'read':
                for m in there:
                    c.get(m.id())
                    c[m.id()]
                c.get('absent')
                'absent' in c
            elif op == 'list':
                for f in (c.keys, c.values, c.items, c.__iter__):
                    list(f())
                len(c)
            elif op == 'expire':
                vclock.set_time(vclock.now() + 101)
                for e in os.scandir(dirs[which]):
                    os.utime(e.path, (999000.0, 999000.0))
                c.remove_expired_messages()
                del there[:]
            rec.step()
            what = 'after %s' % op
            check(watchers[which], due, what)
            check(watchers[1 - which], [], what + ', at the other corpus')
            check(everyone, due, what + ', for all corpora')
        rec.state((kinds, [len(x) for x in present]))
    finally:
        for o in watchers + [everyone]:
            o.disconnect()


def judge_observers(case, rec):
    """Each of several observers hears of everything once."""
    _, kind, n = case
    c = open_corpus(kind, directories()[0])
    observers = [Observer(c) for _ in range(n)]
    try:
        m = mail.message('plain', 'm1')
        c.add_message(m)
        c.remove_message(m)
        for o in observers:
            check(o, [('added', c, m, 'm1'), ('removed', c, m, 'm1')],
                  'with %d observers' % n)
        observers[0].disconnect()
        c.add_message(m)
        check(observers[0], [], 'after it stopped listening')
        for o in observers[1:]:
            check(o, [('added', c, m, 'm1')], 'after one stopped listening')
    finally:
        for o in observers:
            o.disconnect()


def judge_gone(case, rec):
    """Observers of a corpus that is gone hear nothing of new ones (which
    may get its address)."""
    _, kind, n = case
    observers = []
    try:
        for i in range(n):
            c = open_corpus(kind, directories()[0])
            observers.append(Observer(c))
            del c
            gc.collect()
        m = mail.message('plain', 'm1')
        for i in range(10):
            c = open_corpus(kind, directories()[0])
            c.add_message(m)
            c.remove_message(m)
        for o in observers:
            check(o, [], 'after the corpus is gone')
    finally:
        for o in observers:
            o.disconnect()
