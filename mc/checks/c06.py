"""C06: exchanging the labels mirrors every score."""
import itertools

from mc.core import need
from mc.ref import near, split_evidence

PROPERTY = 'C06'
LEVEL = 'model_checking'
RULE = ('every sequence of train and untrain steps up to a depth, run on one '
        'classifier and with the labels exchanged on its twin; after the last '
        'step all queries are scored on both. Also all pairs of (spam, ham) '
        'counts of two words in given totals, many clues of two '
        'strengths, and words of about the least strength in totals of up to '
        '10^5 messages. Non-trivial: has a training step.')
ASSUMPTIONS = ['single-word mode, at most 150 clues (so no ties are cut)',
               'equal to within 1e-9 (1e-6 for words with counts of up to 10^9)']

MSGS = [('a',), ('a', 'b'), ('b', 'c', 'b')]
QUERIES = [(), ('a',), ('b', 'a'), ('c', 'b', 'a', 'x')]
OPS = [(w, s, m) for m in MSGS for w in 'LU' for s in (True, False)]


def units(tier, seed):
    t = tier == 'thorough'
    result = [('hist', op, 6 if t else 5) for op in OPS if op[0] == 'L']
    top = 8 if t else 5
    result += [('grid', s, h, top) for s in range(top + 1)
               for h in range(top + 1)]
    result += [('many', k) for k in range(1, 151, 3 if t else 10)]
    result += [('near', k, i) for k in (2, 3, 5) for i in range(-5, 6)]
    result += [('strong', k) for k in range(0, 10)]
    return result


def explore(unit, rec):
    if unit[0] == 'hist':
        _, op, depth = unit
        for n in range(depth):
            for rest in itertools.product(OPS, repeat=n):
                rec.run(('hist', (op,) + rest))
    elif unit[0] == 'grid':
        _, s, h, top = unit
        for s2 in range(top + 1):
            for h2 in range(top + 1):
                for ns, nh in ((top, top), (top + 3, top), (top, top + 7)):
                    rec.run(('grid', s, h, s2, h2, ns, nh))
    elif unit[0] == 'near':
        # words around the least strength, in unequal totals
        k, i = unit[1:]
        for ns, nh in ((10 ** k,) * 2, (10 ** k, 7 * 10 ** k // 10),
                       (6 * 10 ** k // 10, 10 ** k)):
            for part in (2, 4, 6):
                for far in (0, 1, 2, 5, 20):
                    rec.run(('near', ns, nh, part, i * 10 ** (k - 2) + far))
    elif unit[0] == 'strong':
        k = unit[1]
        for n in (1, 2, 20, 60, 90, 120, 149, 150) + (
                (10, 30, 40, 50, 70, 80, 100, 110, 130, 140)):
            for m in sorted({0, 1, n // 3, n // 2, n}):
                for other in (0, 1, 3):
                    rec.run(('strong', k, m, n - m, other))
    else:
        k = unit[1]
        for m in {0, 1, k // 2, k}:
            for counts in itertools.product(((9, 0), (7, 1), (1, 0), (9, 8)),
                                            ((0, 9), (1, 8), (0, 1), (8, 9))):
                rec.run(('many', m, k - m) + counts)


def compare(c, d, q):
    s1, e1 = split_evidence(c.spamprob(list(q), True))
    s2, e2 = split_evidence(d.spamprob(list(q), True))
    need(near(s1 + s2, 1), 'scores of {} are {} and, mirrored, {}', q, s1, s2)
    if len(e1) == 2 and len(e2) == 2:
        return
    need(near(e1[0][1], e2[1][1]) and near(e1[1][1], e2[0][1]),
         'indications {} and, mirrored, {}', e1[:2], e2[:2])
    p1, p2 = dict(e1[2:]), dict(e2[2:])
    need(set(p1) == set(p2), 'clues {} and, mirrored, {}', sorted(p1),
         sorted(p2))
    for w in p1:
        need(near(p1[w] + p2[w], 1, 1e-12),
             'probability of {} is {} and, mirrored, {}', w, p1[w], p2[w])
        need(near(c.probability(c._wordinfoget(w)) +
                  d.probability(d._wordinfoget(w)), 1, 1e-12),
             'probability of {} not mirrored', w)


def judge(case, rec):
    from sbclassifier.classifiers import Classifier
    c, d = Classifier(), Classifier()
    if case[0] == 'hist':
        extra = {True: 0, False: 0}
        for what, spam, m in case[1]:
            if what == 'L':
                c.learn(list(m), spam)
                d.learn(list(m), not spam)
            else:
                refused = []
                for x, s in ((c, spam), (d, not spam)):
                    try:
                        x.unlearn(list(m), s)
                        refused.append(False)
                    except ValueError:
                        refused.append(True)
                need(refused[0] == refused[1],
                     'untraining is refused on one side only')
            rec.step()
        need((c.nspam, c.nham) == (d.nham, d.nspam), 'totals not mirrored')
        words = {}
        for w in 'abc':
            r1, r2 = c._wordinfoget(w), d._wordinfoget(w)
            need((r1 is None) == (r2 is None), 'known words not mirrored')
            if r1 is not None:
                words[w] = (r1.spamcount, r1.hamcount)
                need(words[w] == (r2.hamcount, r2.spamcount),
                     'counts of {} not mirrored', w)
        rec.state((c.nspam, c.nham, sorted(words.items())))
        if all(s <= max(1, c.nspam) and h <= max(1, c.nham)
               for s, h in words.values()):
            for q in QUERIES:
                compare(c, d, q)
    elif case[0] == 'grid':
        _, s, h, s2, h2, ns, nh = case
        for n, k, k2, spam in ((ns, s, s2, True), (nh, h, h2, False)):
            for i in range(n):
                words = ['v'] * (i < k) + ['w'] * (n - i <= k2)
                c.learn(words, spam)
                d.learn(words, not spam)
                rec.step()
        for q in (['v'], ['w'], ['v', 'w', 'x']):
            compare(c, d, q)
        rec.state(case)
    elif case[0] == 'near':
        _, ns, nh, part, i = case
        s = ns * part // 10
        h = min(nh, max(0, round(s * 2 * nh / ns / 3) + i))
        g = min(nh, max(0, round(s * 3 * nh / ns / 2) + i))
        for x, order in ((c, slice(None)), (d, slice(None, None, -1))):
            x.nspam, x.nham = (ns, nh)[order]
            for w, counts in (('v', (s, h)), ('w', (s, g))):
                x._wordinfoset(w, x.WordInfoClass(*counts[order]))
        rec.step(4)
        for q in (['v'], ['w'], ['v', 'w', 'x']):
            compare(c, d, q)
        rec.state(case)
    elif case[0] == 'strong':
        # very strong clues: m of spam and n of ham
        _, k, m, n, other = case
        top = 10 ** k
        for x, swap in ((c, False), (d, True)):
            x.nspam, x.nham = (top, top + 3)[::-1 if swap else 1]
            for i in range(m + n):
                counts = (top, min(other, top)) if i < m else (
                    min(other, top), top)
                x._wordinfoset('w%d' % i, x.WordInfoClass(
                    *counts[::-1 if swap else 1]))
        words = ['w%d' % i for i in range(m + n)]
        rec.step(m + n)
        p, q = c.spamprob(words), d.spamprob(words)
        # 1 - p loses digits when p is so near to 1
        need(near(p + q, 1, 1e-6), 'score {} and, mirrored, {}', p, q)
        rec.state(case)
    else:
        _, n1, n2, (s1, h1), (s2, h2) = case
        w1 = ['v%d' % i for i in range(n1)]
        w2 = ['w%d' % i for i in range(n2)]
        for i in range(9):
            for words, spam in ((w1 * (i < s1) + w2 * (i < s2), True),
                                (w1 * (i < h1) + w2 * (i < h2), False)):
                c.learn(words, spam)
                d.learn(words, not spam)
                rec.step()
        compare(c, d, w1 + w2)
        rec.state(case)
