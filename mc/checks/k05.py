"""K05: expiry removes exactly the messages past their age."""
import itertools
import os

from mc import core, mail, vclock
from mc.core import need, need_equal

PROPERTY = 'K05'
LEVEL = 'model_checking'
RULE = ('every sequence up to a depth of adding a message (now, or whose file '
        'was written some time ago), clock advances of 0.5, 1 or 1.5 times '
        'the age limit or a hair, expiry runs and reopening, in virtual time; '
        'no young message may go, every old one must be gone once the time '
        'after which it could expire has come, nothing is announced, files '
        'not matching the filter stay. Non-trivial: has an expiry run.')
ASSUMPTIONS = ['the clock does not go backwards',
               'times are whole or half seconds']

AGE = 100
T0 = 1000000.0
# age of an added file, in seconds
ADDS = (0, 50, 100, 100.5, 99.5, 250)
ADVANCES = (0.5, 50, 100, 100.5)


def before_import():
    vclock.install(T0)


OPS = [('add', a) for a in ADDS] + [('wait', x) for x in ADVANCES] + [
    ('expire',), ('reopen',)]
FEW = [('add', 0), ('add', 50), ('wait', 50.5), ('wait', 100.5), ('expire',)]


def units(tier, seed):
    t = tier == 'thorough'
    result = []
    for filter, cache in (('*', 256), ('m*', 1)):
        for a in OPS:
            for b in OPS:
                result.append((filter, cache, 'all', 6 if t else 5, (a, b)))
        for a in FEW:
            for b in FEW:
                result.append((filter, cache, 'few', 9 if t else 7, (a, b)))
    result += [('age', a) for a in (1, 7, 3600, 7 * 24 * 3600)]
    return result


def explore(unit, rec):
    if unit[0] == 'age':
        for ages in itertools.product((-1.5, -1, -0.5, 0, 0.5, 1), repeat=3):
            rec.run(unit + (ages,))
        return
    filter, cache, alphabet, depth, start = unit
    for seq in extend(start, OPS if alphabet == 'all' else FEW, depth):
        rec.run((filter, cache, seq))


def extend(seq, alphabet, depth):
    """Sequences ending with an expiry run, without useless steps."""
    for x, y in zip(seq, seq[1:]):
        if x == y == ('expire',) or x == y == ('reopen',):
            return
        if x[0] == y[0] == 'wait' and x[1] < y[1]:
            return
        if x[0] == y[0] == 'add' and x[1] < y[1]:
            return
    if seq[0][0] in ('wait', 'reopen'):
        return
    if seq[-1] == ('expire',):
        yield seq
    if len(seq) < depth:
        for op in alphabet:
            yield from extend(seq + (op,), alphabet, depth)


_dir = []


def directory():
    if not _dir:
        _dir.append(core.scratch())
    for e in list(os.scandir(_dir[0])):
        os.unlink(e.path)
    return _dir[0]


_heard = []


def hear(sender, message):
    _heard.append(message.id())


def listen():
    from sbclassifier.corpora import message_added, message_removed
    message_added.connect(hear)
    message_removed.connect(hear)


def open_corpus(d, filter, cache, age=AGE):
    from sbclassifier.corpora.filesystem import ExpiryFileCorpus
    return ExpiryFileCorpus(age, d, filter, cache)


def judge(case, rec):
    if case[0] == 'age':
        return judge_age(case, rec)
    filter, cache, seq = case
    listen()
    vclock.set_time(T0)
    d = directory()
    c = open_corpus(d, filter, cache)
    foreign = {}
    if filter != '*':
        foreign = {'other': T0 - 10 * AGE, '.x': T0 - 10 * AGE}
        for name, t in foreign.items():
            path = os.path.join(d, name)
            with open(path, 'w') as f:
                f.write(name)
            os.utime(path, (t, t))
    # message -> time its file was written
    model = {}
    due = T0
    old_enough = set()      # removal may be delayed until due
    for n, op in enumerate(seq):
        now = vclock.now()
        if op[0] == 'add':
            key = 'm%d' % n
            c.add_message(mail.message('plain', key), emit_signal=False)
            written = now - op[1]
            os.utime(os.path.join(d, key), (written, written))
            model[key] = written
        elif op[0] == 'wait':
            vclock.set_time(now + op[1])
        elif op[0] == 'reopen':
            c = open_corpus(d, filter, cache)
            due = now
        else:
            del _heard[:]
            c.remove_expired_messages()
            need_equal(list(_heard), [], 'announced by expiry')
            there = set(x for x in os.listdir(d) if x not in foreign)
            for key, written in model.items():
                if now - written <= AGE:
                    need(key in there, 'at {}: {} is gone at the age of {} s '
                         '(limit {})', now - T0, key, now - written, AGE)
                elif now >= due:
                    need(key not in there, 'at {}: {} is still there at the '
                         'age of {} s (limit {})', now - T0, key,
                         now - written, AGE)
            need(there <= set(model), 'files that were not added: {}', there)
            model = {k: v for k, v in model.items() if k in there}
            need_equal(sorted(c.keys()), sorted(model), 'messages listed')
            if now >= due:
                due = min([now + AGE] + [v + AGE for v in model.values()])
        rec.step()
    for name, t in foreign.items():
        path = os.path.join(d, name)
        need(os.path.exists(path) and os.stat(path).st_mtime == t,
             'the file {} outside the filter was touched', name)
    rec.state((filter, tuple(sorted(T0 - v for v in model.values())),
               vclock.now() - T0, due - T0))


def judge_age(case, rec):
    """Messages of every combination of ages around the limit."""
    _, age, ages = case
    listen()
    vclock.set_time(T0)
    d = directory()
    c = open_corpus(d, '*', 256, age)
    # relative to the limit
    for i, x in enumerate(ages):
        key = 'm%d' % i
        c.add_message(mail.message('plain', key), emit_signal=False)
        t = T0 - age - x
        os.utime(os.path.join(d, key), (t, t))
    del _heard[:]
    c.remove_expired_messages()
    need_equal(list(_heard), [], 'announced by expiry')
    need_equal(sorted(os.listdir(d)),
               ['m%d' % i for i, x in enumerate(ages) if x <= 0],
               'messages after expiry')
    # the rest goes as soon as it can
    passed = 0
    for step in (0.5, 0.5, 1, age):
        passed += step
        vclock.set_time(T0 + passed)
        c.remove_expired_messages()
        need_equal(sorted(os.listdir(d)),
                   ['m%d' % i for i, x in enumerate(ages)
                    if x + passed <= 0],
                   'messages after expiry %s s later' % passed)
    need_equal(os.listdir(d), [], 'messages in the end')
