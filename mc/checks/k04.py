"""K04: trainers keep the classifier equal to the contents of their corpora."""
import itertools

from mc import core, mail, vclock
from mc.core import need, need_equal
from mc.checks.k03 import open_corpus, directories, KINDS

PROPERTY = 'K04'
LEVEL = 'model_checking'
RULE = ('every sequence up to a depth of adding, removing (original or '
        're-read), moving, and cancelling out on up to three corpora of every '
        'kind with spam and ham trainers (one trainer per corpus, one for '
        'two, a corpus without trainer), a message being in several corpora, '
        'and different messages of the same id in different corpora, on in-memory and file-backed '
        'classifiers; the classifier is compared with the counts of the '
        'messages now in the corpora. Non-trivial: adds a message.')
ASSUMPTIONS = ['when a message is in several trained corpora at a time, what '
               'it remembers of its training is not compared']

# messages: token sets overlap, one has repeated words, one has none
MESSAGES = ['one', 'two', 'three']
RAW = {'one': b'Subject: alpha beta\n\nalpha alpha gamma word\n',
       'two': b'Subject: alpha\n\ngamma delta word word\n',
       'three': b'',
       'four': b'From: a@example.com\nSubject: beta\n\nepsilon\n'}
# layout: for each corpus its kind and trainer (True, False, None)
LAYOUTS = {
    'spam/ham': (True, False),
    'spam/none': (True, None),
    'ham/ham one trainer': (False, False),
    'spam/spam one trainer/ham': (True, True, False),
}


def before_import():
    vclock.install(1000000.0)


def ops(layout, messages):
    n = len(LAYOUTS[layout])
    for m in range(messages):
        for i in range(n):
            yield ('add', m, i)
        yield ('remove', m)
        yield ('remove read', m)
        for i in range(n):
            yield ('move', m, i)


def units(tier, seed):
    t = tier == 'thorough'
    result = []
    for layout in LAYOUTS:
        for kind in KINDS:
            if kind == 'small memory':
                continue
            # two messages deep, three messages less deep
            for messages, depth in ((2, 7 if t else 5), (3, 5 if t else 4)):
                if len(LAYOUTS[layout]) == 3 or kind != 'small directory':
                    depth -= 1
                for op in ops(layout, messages):
                    if op[0] == 'add':
                        result.append((layout, kind, messages, depth, op))
    for layout in LAYOUTS:
        for kind in ('memory', 'directory'):
            n = len(LAYOUTS[layout])
            for i in range(n):
                result.append(('several', layout, kind,
                               (6 if t else 5) - (n > 2), i))
                result.append(('namesakes', layout, kind,
                               (6 if t else 5) - (n > 2), i))
    for backend in ('shelve', 'cdb', 'pickle'):
        result += [('store', backend, i) for i in range(24)]
    return result


def explore(unit, rec):
    if unit[0] == 'store':
        rec.run(unit)
        return
    if unit[0] in ('several', 'namesakes'):
        _, layout, kind, depth, i = unit
        for seq in several([('add', 0, i)], {(0, i)},
                           len(LAYOUTS[layout]), depth,
                           unit[0] == 'namesakes'):
            if unit[0] == 'several' or any(m for _, m, _ in seq):
                rec.run((unit[0], layout, kind, seq))
        return
    layout, kind, messages, depth, op = unit
    alphabet = list(ops(layout, messages))
    for seq in extend((op,), alphabet, depth):
        rec.run((layout, kind, seq))


def place(where, op):
    """Where the messages are after the operation, None if it is not
    possible."""
    m = op[1]
    if op[0] == 'add':
        if m in where:
            return None
        return dict(where, **{}) | {m: op[2]}
    if m not in where:
        return None
    where = dict(where)
    if op[0] == 'move':
        if where[m] == op[2]:
            return None
        where[m] = op[2]
    else:
        del where[m]
    return where


def several(seq, where, n, depth, namesakes):
    """Sequences in which a message may be in several corpora, a corpus
    having one of the messages at most if they have the same name."""
    yield tuple(seq)
    if len(seq) == depth:
        return
    for m in (0, 1):
        for i in range(n):
            if (m, i) in where:
                for what in ('remove', 'remove read'):
                    yield from several(seq + [(what, m, i)],
                                       where - {(m, i)}, n, depth,
                                       namesakes)
            elif not namesakes or (1 - m, i) not in where:
                for what in ('add', 'add read'):
                    if what == 'add' or any(x == m for x, _ in where):
                        yield from several(seq + [(what, m, i)],
                                           where | {(m, i)}, n, depth,
                                           namesakes)


def extend(seq, alphabet, depth):
    where = {}
    for op in seq:
        where = place(where, op)
        if where is None:
            return
    yield seq
    if len(seq) < depth:
        for op in alphabet:
            yield from extend(seq + (op,), alphabet, depth)


_tokens = {}


def tokens(i):
    if i not in _tokens:
        from sbclassifier.tokenizer import tokenize
        _tokens[i] = frozenset(tokenize(message(i)))
    return _tokens[i]


NAMES = ['one', 'two', 'three', 'four']


def message(i, name=None):
    from sbclassifier.message import from_bytes
    return from_bytes(RAW[NAMES[i]], 'm' + (name or NAMES[i]))


def expected(where, trained):
    words, totals = {}, {True: 0, False: 0}
    for m, i in where.items():
        spam = trained[i]
        if spam is None:
            continue
        totals[spam] += 1
        for w in tokens(m):
            s, h = words.get(w, (0, 0))
            words[w] = (s + spam, h + (not spam))
    return totals, words


def compare(c, where, trained, what):
    totals, words = expected(where, trained)
    need_equal((c.nspam, c.nham), (totals[True], totals[False]),
               what + ': messages (spam, ham)')
    for w in sorted(set().union(*(tokens(i) for i in range(len(NAMES))))):
        info = c._wordinfoget(w)
        got = (info.spamcount, info.hamcount) if info else None
        need_equal(got, words.get(w), '%s: counts of %r' % (what, w))


def setup_trainers(classifier, corpora, trained, shared):
    from sbclassifier.trainers import HamTrainer, SpamTrainer, Trainer
    if shared:
        result = []
        for spam in (True, False):
            group = [c for c, t in zip(corpora, trained) if t is spam]
            if group:
                result.append(Trainer(classifier, spam, iter(group)))
        return result
    return [(SpamTrainer if t else HamTrainer)(classifier, [c])
            for c, t in zip(corpora, trained) if t is not None]


_more = []


def dirs(n):
    result = list(directories())
    while len(result) + len(_more) < n:
        _more.append(core.scratch())
    from mc.checks.k03 import fresh
    for d in _more:
        fresh(d)
    return (result + _more)[:n]


def judge_several(case, rec):
    from sbclassifier.classifiers import Classifier
    variant, layout, kind, seq = case
    name = 'same' if variant == 'namesakes' else None
    trained = LAYOUTS[layout]
    corpora = [open_corpus(kind, d) for d in dirs(len(trained))]
    classifier = Classifier()
    trainers = setup_trainers(classifier, corpora, trained,
                              'one trainer' in layout)
    where, objects = set(), {}
    for what, m, i in seq:
        x = objects.setdefault(m, message(m, name))
        if what == 'remove read':
            x = corpora[i]['m' + (name or NAMES[m])]
        elif what == 'add read':
            # a message object read from another corpus
            j = min(j for k, j in where if k == m)
            x = corpora[j]['m' + (name or NAMES[m])]
        if what.startswith('add'):
            corpora[i].add_message(x)
            where.add((m, i))
        else:
            corpora[i].remove_message(x)
            where.remove((m, i))
        rec.step()
        totals, words = {True: 0, False: 0}, {}
        for k, j in where:
            if trained[j] is not None:
                totals[trained[j]] += 1
        need_equal((classifier.nspam, classifier.nham),
                   (totals[True], totals[False]),
                   'messages (spam, ham) after {} {} {}'.format(what, m, i))
    for w in sorted(tokens(0) | tokens(1)):
        s = sum(w in tokens(k) for k, j in where if trained[j] is True)
        h = sum(w in tokens(k) for k, j in where if trained[j] is False)
        info = classifier._wordinfoget(w)
        need_equal((info.spamcount, info.hamcount) if info else (0, 0),
                   (s, h), 'counts of %r' % w)
    rec.state((layout, kind, tuple(sorted(where))))
    del trainers


def judge(case, rec):
    if case[0] in ('several', 'namesakes'):
        return judge_several(case, rec)
    if case[0] == 'store':
        return judge_store(case, rec)
    from sbclassifier.classifiers import Classifier
    layout, kind, seq = case
    trained = LAYOUTS[layout]
    kinds = [kind] * len(trained)
    if kind == 'expiring':
        kinds[0] = 'memory'
    corpora = [open_corpus(k, d) for k, d in zip(kinds, dirs(len(trained)))]
    classifier = Classifier()
    trainers = setup_trainers(classifier, corpora, trained,
                              'one trainer' in layout)
    run(classifier, corpora, trained, seq, rec)
    rec.state((layout, kind, classifier.nspam, classifier.nham))
    del trainers


def run(classifier, corpora, trained, seq, rec, after=lambda: None):
    where, objects = {}, {}
    for op in seq:
        what, m = op[:2]
        now = place(where, op)
        if what == 'add':
            objects[m] = message(m)
            corpora[op[2]].add_message(objects[m])
        elif what == 'remove':
            corpora[where[m]].remove_message(objects[m])
        else:
            old = corpora[where[m]]
            x = old['m' + NAMES[m]]
            old.remove_message(x)
            if what == 'move':
                corpora[op[2]].add_message(x)
            objects[m] = x
        where = now
        status = trained[where[m]] if m in where else None
        need(objects[m].is_trained() is status,
             'after {}: the message is trained as {}, not {}', what,
             objects[m].is_trained(), status)
        rec.step()
        after()
    compare(classifier, where, trained, 'in the end')
    for i, c in enumerate(corpora):
        need_equal(sorted(c.keys()),
                   sorted('m' + NAMES[m] for m in where if where[m] == i),
                   'messages in corpus %d' % i)
    return where


def judge_store(case, rec):
    """Moving messages through every order of two corpora, with a persistent
    classifier saved in between and reopened."""
    from mc import stores
    _, backend, k = case
    order = list(itertools.permutations(range(4)))[k]
    trained = (True, False, None)
    with core.Scratch() as top:
        corpora = [open_corpus('small directory', d) for d in dirs(3)]
        classifier = stores.open_store(backend, top)
        trainers = setup_trainers(classifier, corpora, trained, False)
        seq = [('add', m, i % 3) for i, m in enumerate(order)]
        seq += [('move', m, (order.index(m) + 1) % 3) for m in sorted(order)]
        seq += [('remove', order[0]), ('remove read', order[1])]
        seq += [('add', order[0], 1)]
        seq += [('move', m, 2 if order.index(m) != 0 else 0) for m in order
                if m != order[1] and (m == order[0] or
                                      (order.index(m) + 1) % 3 != 2)]
        where = run(classifier, corpora, trained, seq, rec,
                    lambda: classifier.store())
        classifier.store()
        classifier.close()
        del trainers
        compare(stores.open_store(backend, top), where, trained, 'reopened')
