"""C08: the settings of the formula take effect, and only as documented."""
import itertools
from fractions import Fraction as F

from mc import ref as R
from mc.core import need
from mc.ref import Ref, check_score, near

PROPERTY = 'C08'
LEVEL = 'exploration'
RULE = ('every combination of settings (prior probability of unknown words, '
        'its weight, least strength and greatest number of clues) from a '
        'grid x every message of up to three (two if all settings differ from '
        'their defaults; thorough: four) words out of ten '
        'categories of counts in several orders, and of many words '
        'around the greatest number, with and without pairs. Non-trivial: '
        'some setting differs from its default.')
ASSUMPTIONS = ['settings are made before the classifier',
               'any choice between equally strong clues is accepted']

PRIORS = (F(1, 2), F(3, 10), F(11, 20), F(4, 5), F(1, 100))
WEIGHTS = (F(45, 100), F(1, 20), F(1), F(10))
WEAKEST = (F(1, 10), F(0), F(1, 20), F(1, 4), F(2, 5))
MOST = (150, 1, 2, 3, 5, 1000)
N = 8
CATEGORIES = [(8, 0), (0, 8), (8, 1), (2, 7), (1, 0), (0, 1), (5, 4), (4, 4),
              None, (0, 3)]


def units(tier, seed):
    t = tier == 'thorough'
    return [('small', p, w, 4 if t else 3, bigrams) for bigrams in (0, 1)
            for p in range(len(PRIORS)) for w in range(len(WEIGHTS))] + \
        [('many', p, w, t, bigrams) for bigrams in (0, 1)
         for p in range(len(PRIORS)) for w in range(len(WEIGHTS))]


def explore(unit, rec):
    kind, p, w, n, bigrams = unit
    for weakest in WEAKEST:
        for most in MOST:
            settings = PRIORS[p], WEIGHTS[w], weakest, most
            odd = settings != R.DEFAULTS
            settings = tuple(map(str, settings))
            if kind == 'small':
                for k in range(n + 1):
                    if n < 4 and k > 2 and (most in (150, 1000) or sum(
                            x != d for x, d in zip(settings, map(
                                str, R.DEFAULTS))) > 3):
                        continue
                    for words in itertools.combinations_with_replacement(
                            range(len(CATEGORIES)), k):
                        rec.run((settings, bigrams, words), odd)
            else:
                for a, b in ((0, 1), (2, 8), (6, 7), (4, 5), (3, 8)):
                    for k in (most - 1, most, most + 1, 2 * most) \
                            if most < 1000 else (149, 151, 300):
                        if k < 160 and most < 1000 or n:
                            rec.run((settings, bigrams,
                                     ((a, k // 2), (b, k - k // 2))), odd)


_shared = {}


def trained(settings, bigrams):
    key = settings, bigrams
    if key not in _shared:
        from sbclassifier.classifiers import Classifier
        c, ref = Classifier(use_bigrams=bool(bigrams)), Ref(bool(bigrams))
        for i in range(N):
            for spam in (True, False):
                words = ['w%d_%d' % (k, x)
                         for k, counts in enumerate(CATEGORIES) if counts
                         for x in range(160) if counts[0 if spam else 1] > i]
                c.learn(words, spam)
                ref.learn(words, spam)
        if len(_shared) > 1:
            _shared.clear()
        _shared[key] = c, ref
    return _shared[key]


def judge(case, rec):
    settings, bigrams, content = case
    R.configure(tuple(map(F, settings[:3])) + (int(settings[3]),))
    try:
        c, ref = trained(settings, bigrams)
        if content and isinstance(content[0], tuple):
            words = ['w%d_%d' % (k, x) for k, n in content for x in range(n)]
            # (names beyond the known ones are unknown words)
            orders = [words, words[::2] + words[1::2]]
        else:
            words = ['w%d_%d' % (k, content[:i].count(k))
                     for i, k in enumerate(content)]
            orders = [words, words[::-1], words + words[:1]]
        for words in orders:
            score, _ = check_score(c, ref, words)
            rec.step()
            need(near(c.spamprob(iter(words)), score, 1e-12),
                 'score without evidence differs from {}', score)
        rec.state((settings, bigrams, score))
    finally:
        R.configure()
