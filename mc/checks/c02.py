"""C02: scores depend only on the net training."""
import itertools

from mc.core import need, need_equal
from mc.ref import Ref, check_counts, check_same, check_score

PROPERTY = 'C02'
LEVEL = 'model_checking'
RULE = ('every sequence up to the depth of train, (matching) untrain and '
        'score operations; at the end every query is scored and compared with '
        'a fresh classifier trained on the net messages only and with the '
        'exact reference. Permutations and repetitions of scored words are '
        'enumerated separately. Non-trivial: at least one training step.')
ASSUMPTIONS = ['only messages trained before are untrained',
               'results agree up to 1e-12']

MSGS = {
    'unigram': [('a',), ('a', 'b'), ('b', 'c', 'b')],
    'bytes': [(b'a', b'b'), (b'b',)],
    'mixed': [('a', b'a'), (b'a', 'b')],
    'empty': [(), ('a',), ('a', 'b')],
}
QUERIES = {
    'unigram': [(), ('a',), ('b', 'a'), ('c', 'b', 'a', 'x')],
    'bytes': [(b'a',), (b'b', b'a', b'zz')],
    'mixed': [(b'a', 'a'), ('b', b'a', b'b', 'a', 'zz')],
    'empty': [('b',), ('b', 'a')],
}


def alphabet(name):
    ops = []
    for m in MSGS[name]:
        for spam in (True, False):
            ops.append(('L', spam, m))
            ops.append(('U', spam, m))
    ops.append(('S', None, QUERIES[name][-1]))
    ops.append(('S', None, QUERIES[name][0 if name == 'bytes' else 1]))
    return ops


def configs(tier):
    t = tier == 'thorough'
    return [('unigram', False, 6 if t else 5),
            ('bytes', False, 7 if t else 6),
            ('unigram', True, 5 if t else 4),
            ('bytes', True, 7 if t else 5),
            ('mixed', False, 6 if t else 4),
            ('mixed', True, 5 if t else 4),
            ('empty', False, 6 if t else 5),
            ('empty', True, 5 if t else 4)]


def sequences(name, depth, first):
    """Valid sequences of exactly this depth starting with first."""
    ops = alphabet(name)

    def extend(seq, live):
        if len(seq) == depth:
            yield tuple(seq)
            return
        for op in ops:
            what, spam, m = op
            if what == 'U' and live.get((spam, m), 0) <= 0:
                continue
            # scoring twice in a row is covered at the end
            if what == 'S' and seq and seq[-1] == op:
                continue
            key = (spam, m)
            d = {'L': 1, 'U': -1, 'S': 0}[what]
            live[key] = live.get(key, 0) + d
            seq.append(op)
            yield from extend(seq, live)
            seq.pop()
            live[key] -= d
    what, spam, m = first
    if what == 'U':
        return
    yield from extend([first], {(spam, m): 1 if what == 'L' else 0})


def units(tier, seed):
    result = [('permute',), ('wide',), ('long',)]
    top = 14 if tier == 'thorough' else 10
    result += [('pair', s, h, top) for s in range(top + 1)
               for h in range(top + 1) if s or h]
    for name, bigrams, depth in configs(tier):
        for n in range(1, depth + 1):
            for op in alphabet(name):
                result.append((name, bigrams, n, op))
    return result


def explore(unit, rec):
    if unit[0] == 'permute':
        words = ['a', 'b', 'c', 'x']
        for n in range(0, 5):
            for q in itertools.product(words, repeat=n):
                for kind in ('list', 'gen', 'set', 'tuple'):
                    for train in (1, 2):
                        rec.run(('permute', q, kind, train))
        return
    if unit[0] == 'wide':
        for n in (10, 140, 149, 150, 151, 160, 300, 400):
            for order in range(6):
                for mix in range(3):
                    rec.run(('wide', n, order, mix))
        return
    if unit[0] == 'pair':
        _, s, h, top = unit
        for s2 in range(top + 1):
            for h2 in range(top + 1):
                if s2 or h2:
                    rec.run(('pair', s, h, s2, h2, top))
        return
    if unit[0] == 'long':
        for n in range(0, 30):
            for between in (0, 1):
                rec.run(('long', n, between))
        return
    name, bigrams, n, op = unit
    for seq in sequences(name, n, op):
        rec.run((name, bigrams, seq))


def fresh(live, bigrams):
    from sbclassifier.classifiers import Classifier
    c = Classifier(use_bigrams=bigrams)
    for (spam, m), n in sorted(live.items(), key=repr):
        for _ in range(n):
            c.learn(list(m), spam)
    return c


def judge(case, rec):
    from sbclassifier.classifiers import Classifier
    if case[0] == 'permute':
        _, q, kind, train = case
        c = Classifier()
        for i in range(train):
            c.learn(['a', 'c'], True)
            c.learn(['a', 'c'], True)
            c.learn(['b', 'c'], False)
        if train == 2:
            c.unlearn(['b', 'c'], False)
        plain = c.spamprob(sorted(set(q)), True)
        make = dict(list=list, gen=lambda w: (x for x in w), set=set,
                    tuple=tuple)[kind]
        rec.step(3)
        for i in range(2):
            check_same(c.spamprob(make(q), True), plain,
                       'order or repetition changed the result')
            score = c.spamprob(make(q))
            need(abs(score - plain[0]) < 1e-12, 'score {} without evidence, '
                 '{} with', score, plain[0])
        rec.state(case)
        return
    if case[0] == 'wide':
        _, n, order, mix = case
        # words of equal and of different strengths, beyond the clue limit
        words = ['w%d' % i for i in range(n)]
        c, ref = Classifier(), Ref()
        for i in range(6):
            spam = [w for j, w in enumerate(words)
                    if (mix == 0 and j % 2) or (mix == 1 and i <= j % 7)
                    or mix == 2]
            ham = [w for j, w in enumerate(words)
                   if (mix == 0 and not j % 2) or (mix == 1 and i <= j % 5)]
            for m, s in ((spam, True), (ham, False)):
                c.learn(m, s)
                ref.learn(m, s)
        plain = c.spamprob(words, True)
        other = [words[::-1], words + words, words[1:] + words[:1],
                 words[::2] + words[1::2], sorted(words),
                 words[n // 2:] + words[:n // 2] + words[:5]][order]
        check_same(c.spamprob(other, True), plain,
                   'order or repetition changed the result')
        c2 = Classifier()
        for i in reversed(range(6)):
            for m, s in ((other, False), (other[::-1], True)):
                keep = set(w for w in other)
                c2.learn([w for w in m if w in keep], s)
                c2.unlearn(m, s)
        need_equal((c2.nspam, c2.nham, dict(c2.wordinfo)), (0, 0, {}),
                   'state after untraining everything')
        rec.step(20)
        rec.state(case)
        return
    if case[0] == 'pair':
        # every pair of counts, one word scored before the other
        _, s, h, s2, h2, top = case
        c, ref = Classifier(), Ref()
        c.nspam, c.nham = ref.nspam, ref.nham = top, top + 1
        for w, counts in (('v', (s, h)), ('w', (s2, h2))):
            c._wordinfoset(w, c.WordInfoClass(*counts))
            ref.words[w] = list(counts)
        c.spamprob(['v'])
        check_score(c, ref, ['w'])
        check_score(c, ref, ['v', 'w'])
        rec.step(2)
        rec.state(case)
        return
    if case[0] == 'long':
        _, n, between = case
        c, ref = Classifier(), Ref()
        for i in range(n):
            c.learn(['a', 'b'][:1 + i % 2], i % 3 != 0)
            ref.learn(['a', 'b'][:1 + i % 2], i % 3 != 0)
            if between:
                check_score(c, ref, ['a', 'b', 'z'])
        check_score(c, ref, ['a', 'b', 'z'])
        for i in range(n):
            c.unlearn(['a', 'b'][:1 + i % 2], i % 3 != 0)
            ref.unlearn(['a', 'b'][:1 + i % 2], i % 3 != 0)
            if between:
                check_score(c, ref, ['a', 'b', 'z'])
        check_counts(c, ref, 'ab')
        rec.step(2 * n)
        rec.state(case)
        return
    name, bigrams, seq = case
    c, ref = Classifier(use_bigrams=bigrams), Ref(bigrams)
    live = {}
    for what, spam, m in seq:
        if what == 'S':
            c.spamprob(list(m), True)
        elif what == 'L':
            c.learn(list(m), spam)
            ref.learn(m, spam)
            live[spam, m] = live.get((spam, m), 0) + 1
        else:
            c.unlearn(list(m), spam)
            ref.unlearn(m, spam)
            live[spam, m] -= 1
    rec.step(len(seq))
    rec.state(ref.state())
    f = fresh(live, bigrams)
    for q in QUERIES[name]:
        got = c.spamprob(list(q), True)
        check_same(got, f.spamprob(list(q), True),
                   'score of %r differs from that of a fresh classifier' % (q,))
        check_score(c, ref, q, result=got)
        check_same(c.spamprob(list(q), True), got,
                   'scoring %r again' % (q,))
