"""C01: exact training counts for every train/untrain history."""
import itertools

from mc.core import Violation, need, need_equal
from mc.ref import Ref, check_counts

PROPERTY = 'C01'
LEVEL = 'model_checking'
RULE = ('every sequence of operations of each length up to the bound, over '
        'the alphabets in the module; the reference counts are compared with '
        'the implementation after the last operation of every sequence (all '
        'prefixes are sequences too). A case is non-trivial if it has an '
        'operation.')
ASSUMPTIONS = ['single thread', 'words are hashable text or bytes']

# operation: (classifier index, 'L'earn or 'U'nlearn, is_spam, kind, words)
# kind: how the word stream is given
A, B, C = 'a', 'b', 'c'


class SourceError(Exception):
    pass


def failing(words):
    for w in words:
        yield w
    raise SourceError()


KINDS = {
    'list': list,
    'tuple': tuple,
    'iter': lambda w: iter(list(w)),
    'gen': lambda w: (x for x in w),
    'fail': failing,
}


def ops(streams, kinds=('list',), classifiers=(0,), short=False):
    result = []
    for c in classifiers:
        for k in kinds:
            for s in streams:
                for op in 'LU':
                    for is_spam in (True, False):
                        result.append((c, op, is_spam, k, s))
    return result


def alphabets(tier):
    thorough = tier == 'thorough'
    one = [(), (A,), (A, B), (B, A, B)]
    yield ops(one) + ops([(A, B)], ('fail',)), 5 if thorough else 4
    yield ops([(A,), (A, B)]), 7 if thorough else 6
    yield ops([(A,)]), 10 if thorough else 9
    yield ops([(b'x', b'y'), (b'y', b'y')], ('gen', 'fail')), \
        5 if thorough else 4
    yield ops([(A,), (A, B)], ('list',), (0, 1)), 5 if thorough else 4
    yield ops([(A,)], ('iter',), (0, 1)), 7 if thorough else 6
    # all streams of up to 3 words
    vocabulary = (A, B, C)
    streams = [s for n in range(5 if thorough else 4)
               for s in itertools.product(vocabulary, repeat=n)]
    yield ops(streams, ('iter',)), 2
    awkward = ('', ' ', '\0', 'caf\xe9', 'a b', 'bi:a b', b'', b'\xff', b'a',
               'x' * 300, 'nspam', 'saved state')
    yield ops([(w,) for w in awkward] + [awkward], ('tuple',)), 2
    yield ops([(A, B), ('bi:a b',), (A, 'bi:a b', B)]), 4 if thorough else 3


def units(tier, seed):
    result = [('count', n) for n in range(0, 41)]
    result += [('wide', n) for n in (0, 1, 2, 10, 100, 149, 150, 151, 300,
                                     1000)]
    for i, (alphabet, depth) in enumerate(alphabets(tier)):
        if depth < 3:
            chunks = [alphabet[j::8] for j in range(8)]
            result += [('seq', i, depth, tuple(c)) for c in chunks]
        else:
            result += [('seq', i, depth, (a,)) for a in alphabet]
        result.append(('seq', i, 0, ()))
    return result


_cache = {}


def alphabet_of(i, tier=[None]):
    if not _cache:
        for t in ('quick', 'thorough'):
            for j, (a, d) in enumerate(alphabets(t)):
                _cache[j] = a
    return _cache[i]


def explore(unit, rec):
    if unit[0] == 'count':
        n = unit[1]
        for spam in (True, False):
            for m in range(0, n + 3):
                rec.run(('count', n, m, spam))
        return
    if unit[0] == 'wide':
        rec.run(unit)
        return
    _, i, depth, firsts = unit
    if not firsts:
        rec.run(('seq', ()), nontrivial=False)
        return
    alphabet = alphabet_of(i)
    for n in range(depth):
        for first in firsts:
            for rest in itertools.product(alphabet, repeat=n):
                rec.run(('seq', (first,) + rest))


def apply(c, ref, op):
    """Performs op on classifier c and on the reference."""
    _, what, is_spam, kind, words = op
    stream = KINDS[kind](words)
    # both ways to say it
    if what == 'L':
        method = c.learn_spam if is_spam else c.learn_ham
    else:
        method = c.unlearn_spam if is_spam else c.unlearn_ham
    refused = what == 'U' and not ref.can_unlearn(is_spam)
    try:
        if len(words) % 2:
            method(stream)
        elif what == 'L':
            c.learn(stream, is_spam)
        else:
            c.unlearn(stream, is_spam)
    except SourceError:
        need(kind == 'fail', 'unexpected source error')
        return
    except ValueError:
        if not refused:
            raise
        return
    need(not refused, 'an untrain below zero messages was not refused')
    need(kind != 'fail', 'the error of the word source was swallowed')
    if what == 'L':
        ref.learn(words, is_spam)
    else:
        ref.unlearn(words, is_spam)


def judge(case, rec):
    from sbclassifier.classifiers import Classifier
    if case[0] == 'seq':
        sequence = case[1]
        cs = [Classifier(), Classifier()]
        refs = [Ref(), Ref()]
        vocabulary = set()
        for op in sequence:
            vocabulary.update(op[4])
            apply(cs[op[0]], refs[op[0]], op)
            rec.step()
        for i in range(2):
            check_counts(cs[i], refs[i], vocabulary)
            need_equal(set(cs[i].wordinfo), set(refs[i].words), 'known words')
        rec.state((refs[0].state(), refs[1].state()))
    elif case[0] == 'count':
        _, n, m, spam = case
        c, ref = Classifier(), Ref()
        for k in range(n):
            apply(c, ref, (0, 'L', spam, 'list', ('a', 'b')[:1 + k % 2]))
        for k in range(m):
            apply(c, ref, (0, 'U', spam, 'list', ('a', 'b')[:1 + k % 2]))
        rec.step(n + m)
        check_counts(c, ref, 'ab')
        need_equal(set(c.wordinfo), set(ref.words), 'known words')
        rec.state(ref.state())
    elif case[0] == 'wide':
        n = case[1]
        words = ['w%d' % i for i in range(n)]
        c, ref = Classifier(), Ref()
        for op in [(0, 'L', True, 'gen', words), (0, 'L', False, 'gen',
                                                  words[::2] + words),
                   (0, 'L', True, 'iter', words[::-1] * 2),
                   (0, 'U', True, 'list', words)]:
            apply(c, ref, op)
            check_counts(c, ref, words)
            rec.step()
            rec.state(ref.state())
    else:
        raise Violation('unknown case')
