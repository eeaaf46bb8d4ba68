"""E01: training and then untraining a message leaves no trace."""
import itertools
import os
import shutil

from mc import stores
from mc.checks import s01, t02
from mc.core import need, need_equal, scratch
from mc.ref import Ref, check_counts, check_same

PROPERTY = 'E01'
LEVEL = 'model_checking'
RULE = ('(a) every message out of 40 x how it is kept between training and '
        'untraining (every sequence of up to two, thorough: three, of: '
        're-parsed from its bytes, through a directory corpus, our headers '
        'added and removed, with storage in between, notations, copied) x '
        'class x kind of classifier; (b) every sequence up to a depth of '
        'training, untraining, saving, reopening, scoring and re-parsing of '
        'a few messages with shared words; (c) every message x trainer x way of '
        'taking it from the corpus (the same object, read again, one of the '
        'same bytes, from another corpus object) x size of the cache x other '
        'training. At the end, and when everything '
        'is untrained, totals, all counts, known words and scores are '
        'compared with those of a classifier that only had the rest of the '
        'training. Non-trivial: some message is trained.')
ASSUMPTIONS = ['pages do not change while they are cached',
               'messages without recipients or subject get no notation']

KINDS = ('memory', 'pairs', 'shelve', 'pickle', 'cdb', 'slurp', 'slurp pairs')
MESSAGES = dict(t02.MESSAGES)
MESSAGES.update({
    'a': b'To: a@x.org\nSubject: alpha Beta\n\nquebec romeo alpha\n',
    'b': b'To: b@x.org\nSubject: Beta\n\nromeo sierra alpha alpha '
         b'http://site.com/good\n',
    'c': b'From: a@x.org\nTo: c@x.org\nSubject: =?utf-8?q?alpha?=\n\nquebec '
         b'http://site.com/bad caf\xe9\n',
    'notable': b'To: "A. B" <a@x.org>, c@y.org\nSubject: buy now\n\nbody\n',
    'odd notable': b'To: caf\xe9@x.org\nSubject: spammy, d\xe9j\xe0\n\nbody '
                   b'http://site.com/gone\n',
    'encoded notable': b'To: =?utf-8?q?caf=C3=A9?= <a@x.org>\nSubject: '
                       b'=?latin-1?q?d=E9j=E0?= vu\n\nbody\n',
    'link': b'Subject: l\n\nsee http://nowhere.com/x\n',
    'long subject': b'To: a@x.org\nSubject: ' + b'word another ' * 12 +
                    b'\n\nbody\n',
    'same word': b'Subject: x\n\nabc abc abc\n',
})
HISTORY = ('a', 'b', 'c')
OTHERS = ('a', 'rich')
WAYS = ('bytes', 'corpus', 'headers', 'stored headers', 'notations', 'copy',
        'pickle', 'tokenized', 'headers kept')


def before_import():
    s01.before_import()


def setup():
    from mc import tok
    tok.Resolver.install()
    s01.setup()
    import socket
    socket.getaddrinfo = s01.Site.getaddrinfo
    s01.Site.pages = s01.PAGES


def units(tier, seed):
    t = tier == 'thorough'
    result = [('ways', k, m, t) for k in KINDS for m in MESSAGES]
    result += [('trainer', k, m) for k in KINDS for m in MESSAGES]
    for k in KINDS:
        ops = alphabet(k)
        deep = k in ('memory', 'pairs')
        depth = 5 if t else 4
        if k not in ('memory', 'shelve'):
            depth -= 1
        for op in ops:
            if op[0] == 'L':
                for op2 in ops:
                    result.append(('history', k, op, op2, depth + deep * t))
    return result


def alphabet(kind):
    ops = [(w, m, s) for m in HISTORY for w in 'LU' for s in (True, False)
           if s or m != 'c']
    ops += [('score',), ('way', 'b', 'bytes'), ('way', 'c', 'headers')]
    if kind in stores.BACKENDS:
        ops += [('store',), ('reopen',)]
    return ops


def explore(unit, rec):
    if unit[0] == 'trainer':
        for i, (spam, take, size) in enumerate(itertools.product(
                (True, False), TAKE, (1, 256))):
            for other in range(len(BETWEEN)):
                if unit[1] == 'memory' or (i + other + len(unit[2])) % 4 == 0:
                    rec.run(unit + (spam, take, size, other))
        return
    if unit[0] == 'ways':
        _, kind, m, t = unit
        longest = 3 if t and kind in ('memory', 'pairs') else 2
        for n in range(longest + 1):
            for ways in itertools.product(WAYS, repeat=n):
                for spam in (True, False):
                    # what else happens
                    for other in range(len(BETWEEN)):
                        if n == 2 and (other + spam + len(m)) % 3 and not t:
                            continue
                        if n == 2 and not t and kind != 'memory' and \
                                ways[0] != ways[1]:
                            continue
                        rec.run(('ways', kind, m, ways, spam, other))
    else:
        _, kind, op, op2, depth = unit
        if op2 == alphabet(kind)[0]:
            rec.run(('history', kind, (op,)))
        for seq in extend([op, op2], alphabet(kind), depth):
            rec.run(('history', kind, seq))


def useful(seq):
    live = {}
    for i, op in enumerate(seq):
        if op[0] in 'LU':
            live[op[1:]] = live.get(op[1:], 0) + (1 if op[0] == 'L' else -1)
            if live[op[1:]] < 0:
                return False
        elif i and op[0] != 'way' and len(seq[i - 1]) == 1 and \
                (op == seq[i - 1] or op[0] != 'score'):
            return False
        elif i and op == seq[i - 1]:
            return False
    return True


def extend(seq, ops, depth):
    if not useful(seq):
        return
    yield tuple(seq)
    if len(seq) < depth:
        for op in ops:
            yield from extend(seq + [op], ops, depth)


BETWEEN = [
    (), (('L', 'a', True),), (('L', 'rich', False), ('score',), ('reopen',)),
    (('L', 'c', True), ('L', 'c', False), ('U', 'c', True)),
    (('L', None, True), ('L', None, False), ('store',)),
    (('L', 'b', False), ('store',), ('U', 'b', False), ('reopen',)),
]


# how the message that is removed from a corpus was obtained
TAKE = ('same', 'read', 'bytes', 'other corpus')


class World:
    """A classifier, the messages, and what is trained."""
    def __init__(self, kind):
        self.kind = kind
        self.bigrams = 'pairs' in kind
        self.dir = scratch('e01')
        if kind.startswith('slurp'):
            import sbclassifier.classifiers.slurping as s
            s.X_CACHE_DIRECTORY = os.path.join(self.dir, 'cache')
        self.messages = {}
        self.live = []          # (name, spam)
        self.c = self.make(self.bigrams) if kind not in stores.BACKENDS \
            else stores.open_store(kind, self.dir)
        self.saved = 0

    def make(self, bigrams):
        if self.kind.startswith('slurp'):
            from sbclassifier.classifiers.slurping import SlurpingClassifier
            return SlurpingClassifier(use_bigrams=bigrams)
        from sbclassifier.classifiers.basic import Classifier
        return Classifier(use_bigrams=bigrams)

    def close(self):
        if self.kind in stores.BACKENDS:
            self.c.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def message(self, name):
        from sbclassifier.message import from_bytes
        if name not in self.messages:
            self.messages[name] = from_bytes(MESSAGES[name],
                                             'm-' + name.replace(' ', '-'))
        return self.messages[name]

    def tokens(self, name):
        from sbclassifier.tokenizer import tokenize
        return tokenize(self.message(name))

    def perform(self, op):
        if op[0] == 'L':
            self.c.learn(self.tokens(op[1]), op[2])
            self.live.append(op[1:])
        elif op[0] == 'U':
            self.c.unlearn(self.tokens(op[1]), op[2])
            self.live.remove(op[1:])
        elif op[0] == 'score':
            for name in HISTORY:
                self.c.spamprob(self.tokens(name))
        elif op[0] == 'way':
            self.keep(op[1], op[2])
        elif self.kind in stores.BACKENDS:
            self.c.store()
            if op[0] == 'reopen':
                self.c.close()
                self.c = stores.open_store(self.kind, self.dir)

    def corpora(self, size):
        """A corpus of spam and one of ham, with trainers."""
        from sbclassifier.corpora.filesystem import FileCorpus
        from sbclassifier.trainers import HamTrainer, SpamTrainer
        dirs = {s: os.path.join(self.dir, str(s)) for s in (True, False)}
        for d in dirs.values():
            os.mkdir(d)
        result = {s: FileCorpus(d, cache_size=size) for s, d in dirs.items()}
        self.trainers = [SpamTrainer(self.c, [result[True]]),
                         HamTrainer(self.c, [result[False]])]
        return result

    def keep(self, name, way):
        from sbclassifier import message as M
        from sbclassifier.corpora.filesystem import FileCorpus
        m = self.message(name)
        if way == 'bytes':
            m = M.from_bytes(m.as_bytes())
        elif way == 'corpus':
            d = os.path.join(self.dir, 'corpus')
            os.makedirs(d, exist_ok=True)
            corpus = FileCorpus(d)
            key = 'x%d' % self.saved
            self.saved += 1
            corpus.add_message(M.from_bytes(m.as_bytes(), key))
            m = FileCorpus(d)[key]
        elif way == 'copy':
            import copy
            m = copy.deepcopy(m)
        elif way == 'pickle':
            state = m.__getstate__()
            m.__setstate__(state)
        elif way == 'tokenized':
            for _ in zip(range(7), self.tokens(name)):
                pass
            list(self.tokens(name))
        else:
            result = self.c.spamprob(self.tokens(name), True)
            if m.id() is None:
                m.set_id('again')
            kw = {}
            if way != 'headers kept' and (
                    'notable' in name or way == 'notations'):
                if m['to'] is None or m['subject'] is None:
                    return
                kw = dict(notate_to=tuple(M.Classification),
                          notate_subject=tuple(M.Classification))
            m.add_sb_headers(result[0], result[1][:6], True, True,
                             include_evidence=True, **kw)
            if way == 'stored headers':
                id = m.id()
                m = M.from_bytes(m.as_bytes())
                need_equal(m.set_id_from_payload(), id, 'id')
            if way != 'headers kept':
                m.remove_sb_headers()
        self.messages[name] = m

    # ------------------------------------------------------------ the oracle
    def compare(self, what):
        plain = self.make(self.bigrams)
        for name, spam in self.live:
            self.teach(plain, name, spam)
        need_equal((self.c.nspam, self.c.nham), (plain.nspam, plain.nham),
                   what + ': totals')
        known = set(plain.wordinfo)
        if self.kind in stores.BACKENDS:
            self.c.store()
            need_equal(stores.known_words(self.c), known, what +
                       ': known words')
        else:
            need_equal(set(self.c.wordinfo), known, what + ': known words')
        if not self.kind.startswith('slurp'):
            check_counts(self.c, self.reference(), known, what)
        else:
            for w in known:
                r, x = self.c._wordinfoget(w), plain._wordinfoget(w)
                need_equal((r.spamcount, r.hamcount),
                           (x.spamcount, x.hamcount),
                           '%s: counts of %r' % (what, w))
        for name in HISTORY:
            if self.kind.startswith('slurp'):
                # (only what is in the message itself)
                words = list(self.tokens(name))
                list(self.tokens('same word'))
            else:
                words = self.reference_tokens(name)
            check_same(self.c.spamprob(words, True),
                       plain.spamprob(words, True),
                       '%s: result of %s' % (what, name))

    def teach(self, c, name, spam):
        from sbclassifier.message import from_bytes
        from sbclassifier.tokenizer import tokenize
        c.learn(tokenize(from_bytes(MESSAGES[name])), spam)

    def reference_tokens(self, name):
        from sbclassifier.message import from_bytes
        from sbclassifier.tokenizer import tokenize
        if name not in _tokens:
            _tokens[name] = list(tokenize(from_bytes(MESSAGES[name])))
        return list(_tokens[name])

    def reference(self):
        ref = Ref(self.bigrams)
        for name, spam in self.live:
            ref.learn(self.reference_tokens(name), spam)
        return ref


_tokens = {}


def trainer(w, name, spam, take, size, other):
    from sbclassifier.corpora.filesystem import FileCorpus
    from sbclassifier.message import from_bytes
    between = [op for op in BETWEEN[other] if op[0] != 'reopen']
    between = [(op[0], op[1] or name) + op[2:] if len(op) > 1 else op
               for op in between]
    corpora = w.corpora(size)
    corpus = corpora[spam]
    m = from_bytes(MESSAGES[name], 'taken')
    corpus.add_message(m)
    for is_spam in (True, False):
        for n in (1, 2):
            corpora[is_spam].add_message(
                from_bytes(MESSAGES['a'], 'other%d' % n))
            w.live.append(('a', is_spam))
    for op in between:
        w.perform(op)
    if take == 'read':
        m = corpus['taken']
    elif take == 'bytes':
        m = from_bytes(MESSAGES[name], 'taken')
    elif take == 'other corpus':
        m = FileCorpus(corpus.directory)['taken']
    corpus.remove_message(m)


def judge(case, rec):
    w = World(case[1])
    if case[0] == 'trainer':
        trainer(w, *case[2:])
        rec.step(4)
        w.compare('after removing %s' % case[2])
    elif case[0] == 'ways':
        _, kind, name, ways, spam, other = case
        between = [(op[0], op[1] or name) + op[2:] if len(op) > 1 else op
                   for op in BETWEEN[other]]
        w.perform(('L', name, spam))
        half = len(between) // 2
        for op in between[:half]:
            w.perform(op)
        for way in ways:
            w.perform(('way', name, way))
        for op in between[half:]:
            w.perform(op)
        w.perform(('U', name, spam))
        rec.step(2 + len(between) + len(ways))
        w.compare('after untraining %s' % name)
    else:
        _, kind, seq = case
        for op in seq:
            w.perform(op)
            rec.step()
        w.compare('after the history')
    rec.state((case[1], tuple(sorted(w.live)), case[0] != 'history' and
               case[2:4]))
    for op in list(w.live):
        w.perform(('U',) + op)
        rec.step()
    need(not w.live, 'still trained')
    need_equal((w.c.nspam, w.c.nham), (0, 0), 'totals at the end')
    w.compare('after untraining everything')
    w.close()
