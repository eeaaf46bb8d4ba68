"""C05: pair mode."""
import itertools

from mc.core import need, need_equal
from mc.ref import Ref, check_counts, check_same, check_score, pair

PROPERTY = 'C05'
LEVEL = 'model_checking'
RULE = ('all word streams up to a length over three words (text, bytes, and both), '
        'given as list, tuple, iterator and generator, trained and untrained; '
        'all sequences of such training steps up to a depth, each followed by '
        'scoring all short streams; long streams around the clue limit. '
        'Non-trivial: has at least two words.')
ASSUMPTIONS = ['the clue for a pair is "bi:first second"',
               'any choice between equally strong clues is accepted']

KINDS = {
    'list': list,
    'tuple': tuple,
    'iter': lambda w: iter(list(w)),
    'gen': lambda w: (x for x in w),
}
TEXT = ('a', 'b', 'c')
BYTES = (b'a', b'b', b'c')
MIXED = ('a', b'a', b'b')


def streams(vocabulary, longest):
    for n in range(longest + 1):
        yield from itertools.product(vocabulary, repeat=n)


HIST = [('a', 'b'), ('b', 'a'), ('a', 'b', 'a'), ('a',), ('b', 'c')]


def units(tier, seed):
    t = tier == 'thorough'
    result = []
    for vocabulary in (TEXT, BYTES, MIXED):
        for first in vocabulary:
            result.append(('train', vocabulary, first, 7 if t else
                           6 - (vocabulary == MIXED)))
    result.append(('train', (), None, 0))
    ops = [(s, w, spam) for s in HIST for w in 'LU' for spam in (True, False)]
    for op in ops:
        if op[1] == 'L':
            result.append(('hist', op, 5 if t else 4))
    for s in streams(TEXT, 2):
        result.append(('score', s, 6 if t else 5))
    result += [('long', n) for n in (2, 10, 149, 150, 151, 160, 300)]
    return result


def explore(unit, rec):
    if unit[0] == 'train':
        _, vocabulary, first, longest = unit
        if first is None:
            rec.run(('train', (), 'list'), nontrivial=False)
            rec.run(('train', (), 'gen'), nontrivial=False)
            return
        for s in streams(vocabulary, longest - 1):
            for kind in KINDS:
                rec.run(('train', (first,) + s, kind),
                        nontrivial=len(s) > 0)
    elif unit[0] == 'hist':
        _, op, depth = unit
        ops = [(s, w, spam) for s in HIST for w in 'LU'
               for spam in (True, False)]
        for n in range(depth):
            for rest in itertools.product(ops, repeat=n):
                rec.run(('hist', (op,) + rest))
    elif unit[0] == 'score':
        _, prefix, longest = unit
        # what is trained: spam on one stream, ham on another
        trainings = [(x, y) for x in streams(TEXT, 2) for y in streams(TEXT, 2)]
        for rest in streams(TEXT, longest - 2):
            if len(prefix) < 2 and rest:
                continue
            for x, y in trainings:
                rec.run(('score', x, y, prefix + rest))
    else:
        for k in range(6):
            rec.run(('long', unit[1], k))


def judge(case, rec):
    from sbclassifier.classifiers import Classifier
    c, ref = Classifier(use_bigrams=True), Ref(True)
    if case[0] == 'train':
        _, words, kind = case
        make = KINDS[kind]
        universe = set(words) | {pair(a, b) for a in words for b in words}
        for n, (what, spam) in enumerate([('L', True), ('L', False),
                                          ('L', True), ('U', True),
                                          ('U', False), ('U', True)]):
            if what == 'L':
                c.learn(make(words), spam)
                ref.learn(words, spam)
            else:
                c.unlearn(make(words), spam)
                ref.unlearn(words, spam)
            check_counts(c, ref, universe)
            need_equal(set(c.wordinfo), set(ref.words), 'known clues')
            rec.step()
            rec.state(ref.state())
            if n == 0:
                check_same(c.spamprob(make(words), True),
                           c.spamprob(list(words), True),
                           'score of a one-shot stream')
                check_score(c, ref, words)
        need_equal(len(c.wordinfo), 0, 'clues left after untraining')
    elif case[0] == 'hist':
        universe = set(TEXT) | {pair(a, b) for a in TEXT for b in TEXT}
        for words, what, spam in case[1]:
            if what == 'L':
                c.learn(iter(words), spam)
                ref.learn(words, spam)
            elif ref.can_unlearn(spam):
                c.unlearn(iter(words), spam)
                ref.unlearn(words, spam)
            rec.step()
        check_counts(c, ref, universe)
        rec.state(ref.state())
        if ref.sane():
            for q in (('a', 'b'), ('b', 'a', 'b'), ('c', 'a', 'b', 'c')):
                check_score(c, ref, q)
    elif case[0] == 'score':
        _, spam, ham, words = case
        for w, s in ((spam, True), (ham, False), (spam + ham, True),
                     (ham, False)):
            c.learn(w, s)
            ref.learn(w, s)
            rec.step()
        check_score(c, ref, words)
        rec.state((ref.state(), words))
    else:
        _, n, k = case
        words = ['w%d' % i for i in range(n)]
        trainings = [
            [(words, True), ([], False)],
            [(words, False), (words[::2], True)],
            [(words[::-1], True), (words, False), (words, False)],
            [([x for w in words for x in (w, 'glue')], True), (words, False)],
            [(words[:n // 2], True), (words[n // 2:], False)],
            [(words[::3], True), (words[1::3], False), (words, True)],
        ][k]
        for w, s in trainings:
            c.learn(w, s)
            ref.learn(w, s)
        for q in (words, words + words, words[::-1], words[::2],
                  [x for w in words for x in (w, 'glue')]):
            check_score(c, ref, q)
            rec.step()
        rec.state(case)
