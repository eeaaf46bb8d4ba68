"""P02: saved training reopens exactly, whatever the words contain."""
import copy
import itertools
import os
import shutil
import tempfile

from mc import stores
from mc.core import need, need_equal, show, scratch
from mc.reader import reader

PROPERTY = 'P02'
LEVEL = 'exploration'
RULE = ('every set of up to two (thorough: three) words from an alphabet of '
        'adversarial tokens with small counts, saved by every backend (twice, '
        'before and after closing) and read back by another process with '
        'another hash seed; also numbers of words, large counts, the pair '
        'mode, every sequence of training, saves and loads up to a depth, names '
        'and places of the file x settings of the directory for temporary '
        'files, and every sequence of opening a shelf with a flag and working '
        'with it. Non-trivial: has a word.')
ASSUMPTIONS = ['text words are valid Unicode']

TOKENS = [
    '', ' ', ',', '1,2', '\0', '\n', '\r\n', 'a', 'A', 'caf\xe9', '\u20ac',
    '\U0001f600', 'x' * 3000, 'saved state', '\0saved state', '\0b', '\0ba',
    '\0s', '\0sa', "b'a'", 'nspam', '\xff', 'bi:a b', 'e\u0301', '\xe9',
    '\ufeff', 'None', '0',
    b'', b' ', b',', b'\0', b'\n', b'a', b'A', b'caf\xc3\xa9', b'\xff',
    b'\xe9', b'x' * 3000, b'saved state', b'\0saved state', b'\0b', b'\0ba',
    b'\0s', b'ba', b'\xe2\x82\xac', b"b'a'", b'nspam',
]
COUNTS = [(1, 0), (0, 1), (2, 0), (1, 1), (2, 3)]
# where the file may be: directory below the current one, name
DIRECTORIES = ['', 'a b', 'd.d', 'caf\xe9', '-x', '%s', '*', 'db', 'x/y/z', '~']
FILES = ['db', 'a b', 'hammie.pck', '.hidden', '-', 'caf\xe9', '%d{}', '*',
         'x' * 120, '#db#', 'db~', "it's", '[0]', 'a;b', '~']
SPELLINGS = ['{0}', './{0}', '{1}/{0}', 'here/../{0}', '{1}//{0}']
FLAGS = ['c', 'w', 'r', 'n']
WORKS = ['score', 'train', 'untrain', 'save']
TEMPORARY = ['usual', 'missing', 'elsewhere']


def units(tier, seed):
    t = tier == 'thorough'
    n = len(TOKENS)
    result = []
    for b in stores.BACKENDS:
        result.append((b, 'one'))
        result += [(b, 'two', i) for i in range(n)]
        if t:
            result += [(b, 'three', i) for i in range(n)]
        result += [(b, 'many', k) for k in (0, 1, 2, 50, 300, 2000)]
        result += [(b, 'retrain', i) for i in range(0, n, 4)]
        result += [(b, 'abandon', i, 7 if t else 5) for i in range(4)]
        result += [(b, 'place', i) for i in range(len(DIRECTORIES))]
    result += [('shelve', 'flag', f, 4 if t else 3) for f in FLAGS]
    result.append(('raw', 'bigrams'))
    return result


def explore(unit, rec):
    b, kind = unit[:2]
    n = len(TOKENS)
    if kind == 'one':
        for i in range(n):
            for c in COUNTS + [(255, 256), (65536, 1), (10**9, 10**9)]:
                rec.run((b, ((TOKENS[i],) + c,)))
    elif kind == 'two':
        i = unit[2]
        for j in range(i + 1, n):
            for c, d in (((1, 0), (0, 1)), ((2, 1), (1, 2))):
                rec.run((b, ((TOKENS[i],) + c, (TOKENS[j],) + d)))
    elif kind == 'three':
        i = unit[2]
        for j, k in itertools.combinations(range(i + 1, n), 2):
            rec.run((b, ((TOKENS[i], 2, 0), (TOKENS[j], 0, 1),
                         (TOKENS[k], 1, 3))))
    elif kind == 'many':
        for base in ('w%d', 'w\xe9%d'):
            rec.run((b, 'many', base, unit[2]))
    elif kind == 'abandon':
        for n in range(2, unit[3] + 1):
            for seq in itertools.product(range(6), repeat=n - 1):
                if 5 in seq + (5,) and not any(
                        x > 3 and y > 3 and x == y for x, y in
                        zip(seq, seq[1:] + (5,))):
                    rec.run((b, 'abandon', (unit[2],) + seq))
    elif kind == 'place':
        for name in FILES:
            for spelling in SPELLINGS:
                for temporary in TEMPORARY:
                    rec.run((b, 'place', DIRECTORIES[unit[2]], name, spelling,
                             temporary))
    elif kind == 'flag':
        for n in range(1, unit[3] + 1):
            for rest in itertools.product(FLAGS, repeat=n - 1):
                for works in itertools.product(WORKS, repeat=n):
                    # a shelf open for reading cannot be trained
                    if all(w == 'score' or f != 'r' for f, w in
                           zip((unit[2],) + rest, works)):
                        rec.run((b, 'flag', tuple(zip((unit[2],) + rest,
                                                      works))))
    elif kind == 'retrain':
        for j in range(n):
            rec.run((b, 'retrain', TOKENS[unit[2]], TOKENS[j]))
    else:
        for bigrams in (True, False):
            for words in ((), ('a',), ('a', 'b'), (b'a', b'b', b'a')):
                rec.run(('raw', bigrams, words))


_dir = []


def directory():
    if not _dir:
        _dir.append(scratch())
    for entry in list(os.scandir(_dir[0])):
        if entry.is_dir():
            shutil.rmtree(entry.path)
        else:
            os.unlink(entry.path)
    return _dir[0]


def check_read(backend, path, nspam, nham, counts, what):
    answer = reader().read(backend, path)
    need(answer[0] == 'ok', '{}: {}: cannot be opened: {}', backend, what,
         answer[1])
    need_equal(answer[1:3], (nspam, nham), '%s: %s: totals' % (backend, what))
    if answer[3] != counts:
        diff = {w: (answer[3].get(w), counts.get(w))
                for w in set(counts) | set(answer[3])
                if answer[3].get(w) != counts.get(w)}
        need(False, '{}: {}: words differ (found, saved): {}', backend, what,
             show(diff))
    return answer[4]


def train(c, words):
    """words: (word, spam count, ham count); returns totals."""
    ns = max([s for _, s, _ in words], default=0)
    nh = max([h for _, _, h in words], default=0)
    if ns + nh > 10:
        c.nspam, c.nham = ns, nh
        for w, s, h in words:
            c._wordinfoset(w, c.WordInfoClass(s, h))
        return ns, nh
    for i in range(ns):
        c.learn([w for w, s, _ in words if s > i], True)
    for i in range(nh):
        c.learn([w for w, _, h in words if h > i], False)
    return ns, nh


def judge_place(case, rec):
    backend, _, d, name, spelling, temporary = case
    top = directory()
    cwd, tempdir = os.getcwd(), tempfile.gettempdir()
    other = scratch()
    try:
        os.makedirs(os.path.join(top, 'here'))
        os.makedirs(os.path.join(top, d), exist_ok=True)
        os.chdir(top)
        if temporary != 'usual':
            tempfile.tempdir = other if temporary == 'elsewhere' else \
                os.path.join(top, 'no such')
        path = spelling.format(os.path.join(d, name), top)
        real = os.path.join(top, d, name)
        c = stores.cls(backend)(path)
        for i in range(2):
            c.learn(['abc', b'def'], True)
            c.store()
            rec.step()
            check_read(backend, real, i + 1, 0,
                       {'abc': (i + 1, 0), b'def': (i + 1, 0)},
                       'saved as %r' % path)
        c.close()
        c = stores.cls(backend)(path)
        need_equal((c.nspam, c.nham), (2, 0), 'totals in ' + repr(path))
        c.learn([b'def'], False)
        c.store()
        c.close()
        check_read(backend, real, 2, 1, {'abc': (2, 0), b'def': (2, 1)},
                   'saved again as %r' % path)
        found = [os.path.join(p, f) for p, _, files in os.walk(top)
                 for f in files]
        need(len(found) == 1 and found[0] in (real, real + '.db'),
             '{}: saving as {!r} leaves the files {}', backend, path, found)
        need(not os.listdir(other), '{}: files left elsewhere: {}', backend,
             os.listdir(other))
        rec.state(case)
    finally:
        tempfile.tempdir = tempdir
        os.chdir(cwd)
        shutil.rmtree(other, True)


def judge_abandon(case, rec):
    """Loading again, also with training that was not saved: what the
    classifier shows afterwards is what a save keeps."""
    backend, _, seq = case
    path = os.path.join(directory(), 'db')
    c = stores.cls(backend)(path)
    words = [b'a', b'b']
    for op in seq + (5,):
        if op < 4:
            learn, spam = op < 3, op != 1
            try:
                (c.learn if learn else c.unlearn)(words[:1 + (op == 2)], spam)
            except ValueError:
                pass
        elif op == 4:
            c.store()
        else:
            c.load()
        rec.step()
    found = {w: c._wordinfoget(w) for w in words}
    counts = {w: (r.spamcount, r.hamcount) for w, r in found.items() if r}
    totals = c.nspam, c.nham
    c.store()
    check_read(backend, path, *totals, counts, 'loaded again')
    c.learn([b'a', b'c'], True)
    counts[b'c'] = (1, 0)
    n = counts.get(b'a', (0, 0))
    counts[b'a'] = (n[0] + 1, n[1])
    c.store()
    c.close()
    check_read(backend, path, totals[0] + 1, totals[1], counts,
               'trained after loading again')
    rec.state((backend, totals, tuple(sorted(counts.items()))))


def judge_flag(case, rec):
    """The flag says which files may be opened and whether what is there
    counts; a shelf that was only read is the same file afterwards."""
    backend, _, steps = case
    d = directory()
    path = os.path.join(d, 'db')
    counts, totals = None, None         # what was saved; None: no file
    for flag, work in steps:
        before = stores.files(d)
        what = 'opened with {!r} to {}'.format(flag, work)
        try:
            c = stores.cls(backend)(path, flag)
        except Exception as e:
            need(counts is None and flag in 'rw', '{}: {}: {}: {}', backend,
                 what, type(e).__name__, e)
            need_equal(stores.files(d), before, 'files after a failed open')
            continue
        need(counts is not None or flag in 'cn',
             '{}: a missing file can be {}', backend, what)
        if counts is None or flag == 'n':
            counts, totals = {}, [0, 0]
        need_equal([c.nspam, c.nham], totals, what + ': totals')
        for w in (b'a', 'b', 'c'):
            r = c._wordinfoget(w)
            need_equal((r.spamcount, r.hamcount) if r else None,
                       counts.get(w), '%s: counts of %r' % (what, w))
        c.spamprob([b'a', 'b', 'c'])
        c.spamprob([b'a', 'b', 'c'], evidence=True)
        words = [b'a', 'b'] if len(before) else ['b', 'c']
        if work == 'train':
            c.learn(words, True)
            totals[0] += 1
            for w in words:
                n = counts.get(w, (0, 0))
                counts[w] = n[0] + 1, n[1]
        elif work == 'untrain' and totals[0] and all(
                counts.get(w, (0,))[0] for w in words):
            c.unlearn(words, True)
            totals[0] -= 1
            for w in words:
                n = counts[w]
                counts[w] = n[0] - 1, n[1]
                if not any(counts[w]):
                    del counts[w]
        if work != 'score':
            c.store()
        c.close()
        rec.step()
        if work == 'score' and flag == 'r':
            need_equal(stores.files(d), before, what + ': files')
        if counts or any(totals) or work != 'score':
            check_read(backend, path, *totals, counts, what)
        rec.state((flag, work, tuple(totals), tuple(sorted(
            counts.items(), key=repr))))


def judge(case, rec):
    if case[1] == 'flag':
        return judge_flag(case, rec)
    if case[1] == 'place':
        return judge_place(case, rec)
    if case[1] == 'abandon':
        return judge_abandon(case, rec)
    from sbclassifier.safepickle import pickle_read, pickle_write
    d = directory()
    path = os.path.join(d, 'db')
    backend = case[0]
    if backend == 'raw':
        from sbclassifier.classifiers import Classifier
        _, bigrams, words = case
        c = Classifier(use_bigrams=bigrams)
        c.learn(words, True)
        pickle_write(path, c)
        counts = {w: (r.spamcount, r.hamcount) for w, r in c.wordinfo.items()}
        mode = check_read('raw', path, 1, 0, counts, 'pickled')
        need_equal(bool(mode), bigrams, 'pair mode after unpickling')
        for how, copied in (('read', lambda: pickle_read(path)),
                            ('copied', lambda: copy.copy(c)),
                            ('deeply copied', lambda: copy.deepcopy(c))):
            again = copied()
            need(abs(again.spamprob(words) - c.spamprob(words)) < 1e-12,
                 'the classifier {} scores differently', how)
            if how == 'copied':
                continue                # shares its words
            again.learn(words, False)
            need_equal((again.nspam, again.nham), (1, 1), 'totals ' + how)
            need_equal({w: (r.spamcount, r.hamcount)
                        for w, r in again.wordinfo.items()},
                       {w: (1, 1) for w in counts}, 'counts ' + how)
            need_equal({w: (r.spamcount, r.hamcount)
                        for w, r in c.wordinfo.items()}, counts,
                       'counts of the original')
        rec.state(case)
        return
    if case[1] == 'many':
        words = [(case[2] % i, 1 + i % 3, i % 2) for i in range(case[3])]
    elif case[1] == 'retrain':
        words = [(case[2], 1, 2), (case[3], 2, 0)] if case[2] != case[3] \
            else [(case[2], 2, 1)]
    else:
        words = case[1]
    counts = {w: (s, h) for w, s, h in words}
    c = stores.cls(backend)(path)
    ns, nh = train(c, words)
    c.store()
    rec.step()
    check_read(backend, path, ns, nh, counts, 'saved')
    if case[1] == 'retrain':
        # change, remove and re-add words across saves
        first = words[0][0]
        c.learn([first], True)
        c.store()
        rec.step()
        counts[first] = (counts[first][0] + 1, counts[first][1])
        check_read(backend, path, ns + 1, nh, counts, 'trained again')
        for i in range(10):
            r = c._wordinfoget(first)
            if r is None:
                break
            spam = r.spamcount > 0
            c.unlearn([first], spam)
            rec.step()
        c.store()
        del counts[first]
        check_read(backend, path, c.nspam, c.nham, counts, 'word removed')
        c.learn([first], False)
        c.store()
        rec.step()
        counts[first] = (0, 1)
        check_read(backend, path, c.nspam, c.nham, counts, 'word added again')
        ns, nh = c.nspam, c.nham
    c.store()
    check_read(backend, path, ns, nh, counts, 'saved twice')
    c.close()
    check_read(backend, path, ns, nh, counts, 'closed')
    c = stores.cls(backend)(path)
    c.store()
    c.close()
    check_read(backend, path, ns, nh, counts, 'reopened and saved')
    rec.step(3)
    rec.state((backend, sorted(counts.items(), key=repr)))
