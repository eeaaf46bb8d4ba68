"""C04: scoring uses exactly the strongest distinct clues and reports them."""
import itertools

from mc.core import need
from mc.ref import Ref, check_score, check_same

PROPERTY = 'C04'
LEVEL = 'exploration'
RULE = ('messages made of given numbers of words of each strength category '
        '(strong, medium, just above and just below the threshold, neutral, '
        'unknown; spam and ham side), all small multisets in all orders and '
        'all combinations of counts around the limit of 150, in several '
        'orders with repetitions; also words of totals of up to 10^9 messages '
        'whose strength is near the threshold or near that of others. Non-trivial: has a word above the '
        'threshold.')
ASSUMPTIONS = ['any choice between equally strong clues is accepted']

N = 40
# (spam count, ham count) of 40 + 40 messages
CATEGORIES = [
    (40, 0), (0, 40),       # strongest
    (40, 1), (1, 40),
    (1, 0), (0, 1),         # hapaxes
    (6, 4), (4, 6),         # p = 0.5957: weak
    (31, 20), (20, 31),     # 0.607: just above
    (30, 20), (20, 30),     # just below 0.6
    (20, 20),               # neutral
    (9, 5), (5, 9),
    None, None,             # unknown words
    (39, 0), (0, 39),       # hardly weaker than the strongest
    (40, 39), (39, 40), (38, 0), (0, 38),
]
NEAR = (17, 18, 19, 20, 21, 22, 2, 3)
# message totals of classifiers with much training
TOTALS = [(100, 100), (1000, 1000), (10000, 10000), (10000, 7000),
          (10**6, 10**6), (10**9, 10**9)]
SMALL = (0, 1, 4, 5, 6, 8, 10, 12, 15)


def units(tier, seed):
    t = tier == 'thorough'
    result = [('small', i, 5 if t else 4) for i in SMALL + NEAR]
    big = [(a, b) for a in range(15) for b in range(a, 15)]
    result += [('limit', a, b, t) for a, b in big]
    result += [('three', a, t) for a in range(15)]
    result += [('all',)]
    result += [('near', k, swap, 40 if t else 15) for k in range(len(TOTALS))
               for swap in (0, 1)]
    result += [('close', k, swap) for k in range(len(TOTALS))
               for swap in (0, 1)]
    return result


def explore(unit, rec):
    if unit[0] == 'small':
        _, first, size = unit
        alphabet = SMALL if first in SMALL else NEAR
        for n in range(size):
            for rest in itertools.product(alphabet, repeat=n):
                rec.run(('small', (first,) + rest))
    elif unit[0] == 'limit':
        _, a, b, t = unit
        totals = (148, 149, 150, 151, 152, 200) if t else (149, 150, 151, 170)
        for total in totals:
            for k in ((0, 1, 2, 50, 75, 100, 148, 149, 150) if t
                      else (1, 75, 149)):
                if k <= total:
                    for order in range(3):
                        rec.run(('limit', (a, k), (b, total - k), order))
    elif unit[0] == 'three':
        _, a, t = unit
        for b in range(15):
            for c in range(15):
                if t or (a + b + c) % 4 == 0:
                    rec.run(('limit', (a, 60), (b, 60), (c, 60), 0))
                    rec.run(('limit', (a, 149), (b, 1), (c, 1), 1))
    elif unit[0] == 'near':
        # words of every strength around the least
        for part in (2, 4, 9):
            for i in range(-unit[3], unit[3] + 1):
                rec.run(unit[:3] + (part, i))
    elif unit[0] == 'close':
        for step in (1, 2, 7):
            for n in (149, 150, 151, 160, 200):
                for order in range(3):
                    rec.run(unit + (step, n, order))
    else:
        for n in (1, 5, 10, 11, 12, 13, 20, 160):
            for order in range(3):
                rec.run(('limit',) + tuple((k, n) for k in
                                           range(len(CATEGORIES))) + (order,))


_shared = {}


def trained():
    if 'c' not in _shared:
        from sbclassifier.classifiers import Classifier
        c, ref = Classifier(), Ref()
        for i in range(N):
            for spam in (True, False):
                words = ['w%d_%d' % (k, x)
                         for k, counts in enumerate(CATEGORIES) if counts
                         for x in range(200) if counts[0 if spam else 1] > i]
                c.learn(words, spam)
                ref.learn(words, spam)
        _shared['c'] = c, ref
    return _shared['c']


def counted(totals, words):
    from sbclassifier.classifiers import Classifier
    c, ref = Classifier(), Ref()
    c.nspam, c.nham = ref.nspam, ref.nham = totals
    for w, (s, h) in words.items():
        c._wordinfoset(w, c.WordInfoClass(s, h))
        ref.words[w] = [s, h]
    return c, ref


def judge_counted(case, rec):
    kind, k, swap = case[:3]
    order = slice(None, None, -1 if swap else 1)
    totals = TOTALS[k]
    if kind == 'near':
        part, i = case[3:]
        # the share of ham that is two thirds of the share of spam
        s = totals[0] * part // 10
        h = min(totals[1],
                max(0, round(s * 2 * totals[1] / totals[0] / 3) + i))
        words = {'w': (s, h)[order]}
    else:
        step, n, o = case[3:]
        s = totals[0] * 7 // 10
        h = totals[1] * 3 // 10
        words = {'w%d' % i: (s + min(i * step, totals[0] - s), h)[order]
                 for i in range(n)}
    c, ref = counted(totals[order], words)
    words = list(words)
    if kind == 'close' and o:
        words = words[::-1] if o == 1 else words[::2] + words[1::2]
    check_score(c, ref, words)
    rec.step()
    rec.state(case)


def judge(case, rec):
    if case[0] in ('near', 'close'):
        return judge_counted(case, rec)
    c, ref = trained()
    if case[0] == 'small':
        words = ['w%d_0' % k for k in case[1]]
        first = check_score(c, ref, words)
        plain = c.spamprob(words)
        need(abs(plain - first[0]) < 1e-12,
             'score is {} with and {} without evidence', first[0], plain)
        check_score(c, ref, words[:1] + words + words[::-1])
        return
    order = case[-1]
    words = []
    for k, n in case[1:-1]:
        start = 100 if words and case[1][0] == k and len(case) < 6 else 0
        words += ['w%d_%d' % (k, x % 200) for x in range(start, start + n)]
    if order == 1:
        words = words[::-1] + words[::2]
    elif order == 2:
        words = words[::2] + words[1::2] + words[:3]
    first = check_score(c, ref, words)
    check_same(c.spamprob(iter(words), True), first, 'as an iterator')
