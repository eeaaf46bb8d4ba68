"""K02: a directory corpus keeps every message until it is removed."""
import itertools
import os

from mc import core, mail
from mc.core import need, need_equal

PROPERTY = 'K02'
LEVEL = 'model_checking'
RULE = ('every sequence up to a depth of adding, replacing, removing (by the '
        'original or the re-read message), files added by another program '
        '(matching the filter or not), directories and reopening, for memory '
        'cache sizes 1, 2 and 256 and three filters; afterwards every '
        'view of the corpus and of a new corpus is compared with the '
        'expected files (also by a corpus object that only reads, in '
        'between and afterwards). Also every message content and id of a list. '
        'Non-trivial: adds a message.')
ASSUMPTIONS = ['another program changes no file that the corpus has added']

FILTERS = {'*': ('a', 'b', 'c', None), '*.eml': ('a.eml', 'b.eml', '*.eml',
                                                 'note.txt'),
           '[0-9]*': ('1', '22', '3x', 'x3')}
IDS = ['a', 'A', 'a b', ' a', 'a ', '.hidden', '..a', 'a..', '-', '*', '?',
       '[a]', '[', '~', 'caf\xe9', '\u20ac', 'e\u0301', 'a\nb', 'a\n', '\\',
       'a\\b', "'", '"', '%s', '{}', '<id@host>', 'x' * 200, '0', 'None',
       'a.eml', '#a#', '$HOME', '\udcff']


def units(tier, seed):
    t = tier == 'thorough'
    result = []
    for f in FILTERS:
        for size in (1, 2, 256):
            depth = 5 if t else 4 if f == '*' and size < 3 else 3
            for op in range(len(OPS)):
                for op2 in range(len(OPS)):
                    result.append(('seq', f, size, depth, (op, op2)))
    result += [('contents', n) for n in mail.RAW]
    result += [('many', size, n) for size in (1, 2, 5, 256)
               for n in (1, 2, 6, 300)]
    return result


# What can happen to name i of the filter: see perform().
OPS = [(what, i) for what in ('add', 'remove') for i in (0, 1, 2)] + [
    ('remove read', 0), ('remove read', 1), ('other', 0), ('other', 2),
    ('foreign', 3), ('directory', 1), ('reopen', 0), ('read', 0)]


def explore(unit, rec):
    kind = unit[0]
    if kind == 'seq':
        _, f, size, depth, start = unit
        if start[1] == 0 and useful(start[:1]):
            rec.run(('seq', f, size, start[:1]))
        for n in range(depth - 1):
            for rest in itertools.product(range(len(OPS)), repeat=n):
                seq = start + rest
                if useful(seq):
                    rec.run(('seq', f, size, seq))
    elif kind == 'contents':
        for id in IDS:
            rec.run(('contents', unit[1], id))
        for other in mail.RAW:
            rec.run(('replace', unit[1], other))
        rec.run(('twins', unit[1]))
    else:
        rec.run(unit)


def useful(seq):
    """Nothing to remove: skipped (the sequence is subsumed by another)."""
    there = set()
    for x, y in zip(seq, seq[1:]):
        if x == y and OPS[x][0] in ('reopen', 'read'):
            return False
    if OPS[seq[-1]][0] in ('reopen', 'read'):
        return len(seq) == 1
    for x in seq:
        what, i = OPS[x]
        if what in ('add', 'other'):
            if what == 'other' and i in there:
                return False
            if ('d', i) in there:
                return False
            there.add(i)
        elif what.startswith('remove'):
            if i not in there:
                return False
            there.discard(i)
        elif what == 'directory':
            if i in there or ('d', i) in there:
                return False
            there.add(('d', i))
        elif what == 'foreign':
            if 'f' in there:
                return False
            there.add('f')
    return True


_dir = []


def directory():
    if not _dir:
        _dir.append(core.scratch())
    for entry in list(os.scandir(_dir[0])):
        if entry.is_dir():
            os.rmdir(entry.path)
        else:
            os.unlink(entry.path)
    return _dir[0]


def open_corpus(d, f, size):
    from sbclassifier.corpora.filesystem import FileCorpus
    if f == '*' and size == 256:
        return FileCorpus(d)
    return FileCorpus(d, f, cache_size=size)


def compare(c, model, absent, what):
    """model: id -> content"""
    need_equal(len(c), len(model), what + ': length')
    need_equal(sorted(c.keys()), sorted(model), what + ': keys()')
    need_equal(sorted(c), sorted(model), what + ': iteration')
    items = {}
    for k, m in c.items():
        need(k not in items, '{}: items() repeats {!r}', what, k)
        items[k] = (m.id(), mail.content(m))
    expected = {k: (k, v) for k, v in model.items()}
    need_equal(items, expected, what + ': items()')
    need_equal(sorted((m.id(), mail.content(m)) for m in c.values()),
               sorted(expected.values()), what + ': values()')
    for k, v in model.items():
        need(k in c, '{}: {!r} is missing', what, k)
        for m in (c[k], c.get(k), c.get(k, 'none')):
            need_equal((m.id(), mail.content(m)), (k, v),
                       '%s: message %r' % (what, k))
    for k in absent:
        if k in model:
            continue
        need(k not in c, '{}: {!r} is there', what, k)
        need_equal(c.get(k), None, '%s: get(%r)' % (what, k))
        need_equal(c.get(k, 'none'), 'none', '%s: get(%r)' % (what, k))
        try:
            c[k]
        except KeyError:
            pass
        else:
            need(False, '{}: [{!r}] is found', what, k)


def check(c, d, f, size, model, absent, foreign, what):
    compare(c, model, absent, what)
    compare(open_corpus(d, f, size), model, absent, what + ', reopened')
    names = {e.name: e.is_dir() for e in os.scandir(d)}
    need_equal(sorted(names), sorted(list(model) + list(foreign)),
               what + ': files')


CONTENTS = ['plain', 'other', 'crlf', '8bit', 'multipart', 'no body']


def judge(case, rec):
    if case[0] != 'seq':
        return globals()['judge_' + case[0]](case, rec)
    _, f, size, seq = case
    d = directory()
    names = FILTERS[f]
    c = open_corpus(d, f, size)
    reader = open_corpus(d, f, size)        # only ever read from
    model, originals, foreign = {}, {}, {}
    absent = [n for n in names if n] + ['absent', 'absent.eml', '9']
    for step, x in enumerate(seq):
        what, i = OPS[x]
        name = names[i]
        if what == 'add':
            m = mail.message(CONTENTS[step % len(CONTENTS)], name)
            model[name] = mail.content(m)
            originals[name] = m
            c.add_message(m)
        elif what == 'remove':
            m = originals.pop(name, None)
            if m is None:
                m = c[name]
            c.remove_message(m)
            del model[name]
        elif what == 'remove read':
            originals.pop(name, None)
            c.remove_message(c[name])
            del model[name]
        elif what == 'other':
            raw = mail.RAW[CONTENTS[(step + 1) % len(CONTENTS)]]
            with open(os.path.join(d, name), 'wb') as g:
                g.write(raw)
            from sbclassifier.message import from_bytes
            model[name] = mail.content(from_bytes(raw))
        elif what == 'foreign':
            if name:
                with open(os.path.join(d, name), 'wb') as g:
                    g.write(b'not a message')
                foreign[name] = b'not a message'
        elif what == 'directory':
            os.mkdir(os.path.join(d, name))
            foreign[name] = None
        elif what == 'read':
            compare(c, model, absent, 'after step %d' % step)
            compare(reader, model, absent, 'reader after step %d' % step)
        else:
            c = open_corpus(d, f, size)
        rec.step()
    check(c, d, f, size, model, absent, foreign, 'in the end')
    if any(OPS[x][0] == 'read' for x in seq):
        compare(reader, model, absent, 'reader in the end')
    for name, data in foreign.items():
        if data is not None:
            with open(os.path.join(d, name), 'rb') as g:
                need_equal(g.read(), data, 'contents of ' + name)
    rec.state((f, size, tuple(sorted(model.items())), tuple(foreign)))


def judge_contents(case, rec):
    _, raw, id = case
    d = directory()
    c = open_corpus(d, '*', 1)
    m = mail.message(raw, id)
    content, headers = mail.content(m), m.items()
    c.add_message(m)
    model = {id: content}
    check(c, d, '*', 1, model, ['a', 'x'], {}, 'with %r' % id)
    other = mail.message('other', 'zz')
    c.add_message(other)
    model['zz'] = mail.content(other)
    check(c, d, '*', 1, model, ['a', 'x'], {}, 'with two messages')
    again = c[id]
    need_equal([(k, str(v)) for k, v in again.items()],
               [(k, str(v)) for k, v in headers], 'headers read back')
    c.remove_message(c[id])
    del model[id]
    check(c, d, '*', 1, model, [id], {}, 'after removing %r' % id)


def judge_replace(case, rec):
    _, first, second = case
    for size in (1, 256):
        d = directory()
        c = open_corpus(d, '*', size)
        for raw in (first, second, first):
            m = mail.message(raw, 'a')
            c.add_message(m)
            check(c, d, '*', size, {'a': mail.content(m)}, ['b'], {},
                  'with ' + raw)


def judge_twins(case, rec):
    """Messages of the same length that differ in one character."""
    from sbclassifier.message import from_bytes
    raw = mail.RAW[case[1]]
    for size, where in itertools.product((1, 256), (0, 1, 2)):
        d = directory()
        c = open_corpus(d, '*', size)
        for step in range(4):
            if step == where + 1:
                c = open_corpus(d, '*', size)
            m = from_bytes(b'X-Number: %d\n' % (step % 3) + raw, 'a')
            c.add_message(m)
            rec.step()
            check(c, d, '*', size, {'a': mail.content(m)}, ['b'], {},
                  'with twin %d' % step)


def judge_many(case, rec):
    _, size, n = case
    d = directory()
    c = open_corpus(d, '*', size)
    model = {}
    for i in range(n):
        m = mail.message(CONTENTS[i % len(CONTENTS)], 'm%d' % i)
        model['m%d' % i] = mail.content(m)
        c.add_message(m)
    check(c, d, '*', size, model, ['m%d' % n], {}, 'with %d messages' % n)
    for i in range(0, n, 2):
        c.remove_message(c['m%d' % i])
        del model['m%d' % i]
    check(c, d, '*', size, model, ['m0'], {}, 'after removing every other')
