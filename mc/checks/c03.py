"""C03: the score is the documented combination of word probabilities."""
from decimal import Decimal
from fractions import Fraction

from mc import ref as R
from mc.core import need
from mc.ref import Ref, check_score, near, word_prob

PROPERTY = 'C03'
LEVEL = 'exploration'
RULE = ('the full grid of (spam count, ham count, spam total, ham total) for '
        'one word; all multisets of clue strengths up to a size; every number '
        'of clues 0..150 for every pair of strengths in the table; the grid '
        'of chi2Q arguments. All compared with 60-digit arithmetic.')
ASSUMPTIONS = ['a word is seen in at most as many messages as were trained',
               'at most 10^9 messages']

# (spam count, ham count) of 12 spam and 12 ham messages
N = 12
CATEGORIES = [(12, 0), (0, 12), (1, 0), (0, 1), (12, 1), (1, 12), (5, 3),
              (3, 5), (12, 11), (6, 2), (2, 0), (0, 2)]
# extreme words: (s, h, nspam, nham)
HUGE = [(10**6, 0, 10**6, 10**6), (0, 10**6, 10**6, 10**6),
        (10**6, 1, 10**6, 10**6), (1, 10**6, 10**6, 10**6)]


def units(tier, seed):
    t = tier == 'thorough'
    top = 12 if t else 8
    result = [('grid', ns, nh) for ns in range(top + 1)
              for nh in range(top + 1)]
    result += [('multi', i, 6 if t else 4) for i in range(len(CATEGORIES))]
    result += [('many', i, j) for i in range(len(CATEGORIES))
               for j in range(i, len(CATEGORIES))
               if t or (i + j) % 3 == 0 or i == j]
    result += [('huge', i, j) for i in range(4) for j in range(i, 4)]
    result += [('chi', v, t) for v in range(2, 302, 2)]
    result += [('big', k) for k in range(10)]
    result += [('odd',)]
    return result


def explore(unit, rec):
    kind = unit[0]
    if kind == 'grid':
        _, ns, nh = unit
        for s in range(ns + 1):
            for h in range(nh + 1):
                if s or h:
                    rec.run(('grid', s, h, ns, nh))
    elif kind == 'multi':
        _, i, size = unit

        def extend(chosen):
            yield tuple(chosen)
            if len(chosen) < size:
                for j in range(chosen[-1], len(CATEGORIES)):
                    yield from extend(chosen + [j])
        for m in extend([i]):
            rec.run(('multi', m))
    elif kind == 'many':
        _, i, j = unit
        for n in list(range(0, 151, 10)) + [1, 2, 3, 75, 149]:
            for m in sorted({0, 1, n // 3, n // 2, n - 1, n}):
                if 0 <= m <= n:
                    rec.run(('many', i, j, m, n - m))
    elif kind == 'huge':
        _, i, j = unit
        for n in list(range(0, 151, 10)) + [1, 2, 3, 29, 34, 149]:
            for m in sorted({0, 1, n // 3, n // 2, n - 1, n}):
                if 0 <= m <= n:
                    rec.run(('huge', i, j, m, n - m))
    elif kind == 'chi':
        _, v, t = unit
        for k in range(0, 400 if t else 120):
            rec.run(('chi', (k * k / 16.0) if k < 200 else k * 4.0, v))
    elif kind == 'odd':
        for v in (1, 3, 5, 101):
            rec.run(('odd', v))
    else:
        k = unit[1]
        for s in (1, 10**k, 10**k - 1, (10**k + 1) // 2):
            for h in (0, 1, 10**k // 3, 10**k - 1, 10**k):
                for ns in (10**k, 3 * 10**k):
                    for nh in (10**k, 7 * 10**k):
                        if s or h:
                            rec.run(('big', s, h, ns, nh))


_shared = {}


def trained(n=N, per=160):
    """A classifier with `per` words in each category."""
    if 'c' not in _shared:
        from sbclassifier.classifiers import Classifier
        c, ref = Classifier(), Ref()
        for i in range(n):
            for spam in (True, False):
                words = ['w%d_%d' % (k, x)
                         for k, counts in enumerate(CATEGORIES)
                         for x in range(per) if counts[0 if spam else 1] > i]
                c.learn(words, spam)
                ref.learn(words, spam)
        _shared['c'] = c, ref
    return _shared['c']


def set_counts(s, h, ns, nh, words=('w',)):
    from sbclassifier.classifiers import Classifier
    c, ref = Classifier(), Ref()
    c.nspam, c.nham = ref.nspam, ref.nham = ns, nh
    for w in words:
        c._wordinfoset(w, c.WordInfoClass(s, h))
        ref.words[w] = [s, h]
    return c, ref


def check_word(c, ref, w):
    want = ref.prob(w)
    got = c.probability(c._wordinfoget(w))
    need(near(got, float(want), 1e-12), 'probability of a word with counts {} '
         'of {} {}: {}, expected {}', ref.words[w], ref.nspam, ref.nham, got,
         float(want))
    need(0 < got < 1, 'probability {} of counts {}', got, ref.words[w])


def judge(case, rec):
    kind = case[0]
    if kind == 'grid':
        _, s, h, ns, nh = case
        from sbclassifier.classifiers import Classifier
        c, ref = Classifier(), Ref()
        for spam, k, n in ((True, s, ns), (False, h, nh)):
            for i in range(n):
                words = ['w', 'v'] if i < k else ['v'] if i % 2 else []
                c.learn(words, spam)
                ref.learn(words, spam)
        check_word(c, ref, 'w')
        if 'v' in ref.words:
            check_word(c, ref, 'v')
        for q in ([], ['w'], ['w', 'v'], ['x'], ['w', 'x']):
            check_score(c, ref, q)
    elif kind == 'multi':
        c, ref = trained()
        used, words = {}, []
        for k in case[1]:
            used[k] = used.get(k, -1) + 1
            words.append('w%d_%d' % (k, used[k]))
        check_score(c, ref, words)
    elif kind == 'many':
        _, i, j, m, n = case
        c, ref = trained()
        words = ['w%d_%d' % (i, x) for x in range(m)] + \
                ['w%d_%d' % (j, x) for x in range(159, 159 - n, -1)]
        check_score(c, ref, words)
    elif kind == 'huge':
        _, i, j, m, n = case
        c, ref = set_counts(1, 1, 10**6, 10**6)
        words = []
        for x in range(m + n):
            k = HUGE[i if x < m else j]
            words.append('w%d' % x)
            c._wordinfoset(words[-1], c.WordInfoClass(*k[:2]))
            ref.words[words[-1]] = list(k[:2])
        check_score(c, ref, words, tol=1e-6)
    elif kind == 'chi':
        from sbclassifier.classifiers.basic import chi2Q
        _, x2, v = case
        got = chi2Q(x2, v)
        want = float(R.tail(Decimal(x2) / 2, v // 2))
        need(0 <= got <= 1, 'chi2Q({}, {}) = {}', x2, v, got)
        need(near(got, want, 1e-9), 'chi2Q({}, {}) = {}, expected {}', x2, v,
             got, want)
    elif kind == 'odd':
        from sbclassifier.classifiers.basic import chi2Q
        try:
            got = chi2Q(1.0, case[1])
        except ValueError:
            return
        need(False, 'chi2Q accepts an odd number of degrees: {}', got)
    else:
        _, s, h, ns, nh = case
        c, ref = set_counts(s, h, ns, nh)
        check_word(c, ref, 'w')
        p = word_prob(s, h, ns, nh)
        if min(p, 1 - p) > Fraction(1, 10**8):
            check_score(c, ref, ['w'], tol=1e-7)
