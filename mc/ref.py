"""Independent reference classifier, written from the property text.

Counts are plain integers; probabilities and scores are computed with
fractions and 60-digit decimals."""
from decimal import Decimal, getcontext
from fractions import Fraction
from functools import lru_cache

from mc.core import Violation, need, need_equal, show

getcontext().prec = 60

LIMIT = 150
EPS = 1e-12
HALF = Fraction(1, 2)
TENTH = Fraction(1, 10)
# the settings: prior of unknown words, its weight, weakest clue, most clues
DEFAULTS = HALF, Fraction(45, 100), TENTH, LIMIT
SETTINGS = DEFAULTS


def configure(settings=DEFAULTS):
    """Put settings into force, here and in the code."""
    global SETTINGS
    import sbclassifier.classifiers.basic as b
    SETTINGS = settings
    b.UNKNOWN_WORD_PROB, b.UNKNOWN_WORD_STRENGTH, b.MINIMUM_PROB_STRENGTH = \
        map(float, settings[:3])
    b.MAX_DISCRIMINATORS = settings[3]


def pair(a, b):
    if isinstance(a, bytes) and isinstance(b, bytes):
        return b'bi:' + a + b' ' + b
    return 'bi:%s %s' % (a, b)


class Ref:
    """Net training counts."""

    def __init__(self, bigrams=False):
        self.bigrams = bigrams
        self.nspam = self.nham = 0
        self.words = {}         # word -> [spam, ham]

    def features(self, words):
        words = list(words)
        result = set(words)
        if self.bigrams:
            result.update(pair(a, b) for a, b in zip(words, words[1:]))
        return result

    def learn(self, words, is_spam):
        if is_spam:
            self.nspam += 1
        else:
            self.nham += 1
        for w in self.features(words):
            r = self.words.setdefault(w, [0, 0])
            r[0 if is_spam else 1] += 1

    def can_unlearn(self, is_spam):
        return (self.nspam if is_spam else self.nham) > 0

    def unlearn(self, words, is_spam):
        """False if refused."""
        if not self.can_unlearn(is_spam):
            return False
        if is_spam:
            self.nspam -= 1
        else:
            self.nham -= 1
        for w in self.features(words):
            r = self.words.get(w)
            if r is not None:
                i = 0 if is_spam else 1
                r[i] = max(0, r[i] - 1)
                if r == [0, 0]:
                    del self.words[w]
        return True

    def copy(self):
        c = Ref(self.bigrams)
        c.nspam, c.nham = self.nspam, self.nham
        c.words = {w: list(r) for w, r in self.words.items()}
        return c

    def state(self):
        return (self.nspam, self.nham,
                sorted((repr(w), tuple(r)) for w, r in self.words.items()))

    def sane(self):
        """Whether every word count is possible for the message totals."""
        return all(s <= max(1, self.nspam) and h <= max(1, self.nham)
                   for s, h in self.words.values())

    def prob(self, word):
        r = self.words.get(word)
        if r is None:
            return SETTINGS[0]
        return word_prob(r[0], r[1], self.nspam, self.nham, *SETTINGS[:2])


@lru_cache(maxsize=100000)
def word_prob(s, h, nspam, nham, prior=HALF, weight=DEFAULTS[1]):
    spamratio = Fraction(s, nspam or 1)
    hamratio = Fraction(h, nham or 1)
    p = spamratio / (spamratio + hamratio)
    n = s + h
    return (weight * prior + n * p) / (weight + n)


def dec(fraction):
    return Decimal(fraction.numerator) / Decimal(fraction.denominator)


@lru_cache(maxsize=100000)
def ln(fraction):
    return dec(fraction).ln()


def tail(minus_log, n):
    """P(chi-squared with 2n degrees of freedom >= 2 * minus_log)."""
    m = minus_log
    term = total = Decimal(1)
    for i in range(1, n):
        term *= m / i
        total += term
    return total * (-m).exp()


@lru_cache(maxsize=100000)
def combine(probs):
    """(score, H, S) for a sorted tuple of exact probabilities."""
    n = len(probs)
    if n == 0:
        return 0.5, None, None
    s = 1 - tail(-sum((ln(1 - p) for p in probs), Decimal(0)), n)
    h = 1 - tail(-sum((ln(p) for p in probs), Decimal(0)), n)
    return float((s - h + 1) / 2), float(h), float(s)


def strength(p):
    return abs(p - HALF)


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol


# -------------------------------------------------------- checks on evidence
def split_evidence(result):
    need(isinstance(result, tuple) and len(result) == 2,
         'spamprob(evidence=True) returned {}', show(result))
    score, evidence = result
    need(len(evidence) >= 2, 'evidence lacks the overall indications')
    return score, evidence


def check_counts(c, ref, vocabulary, what='classifier'):
    """The counts shown by classifier c are those of the reference."""
    need_equal((c.nspam, c.nham), (ref.nspam, ref.nham),
               what + ': totals (spam, ham)')
    for w in vocabulary:
        r = c._wordinfoget(w)
        got = (0, 0) if r is None else (r.spamcount, r.hamcount)
        want = tuple(ref.words.get(w, (0, 0)))
        if got != want or (r is None) != (w not in ref.words):
            raise Violation('%s: word %r has counts %s, expected %s'
                            % (what, w, r and got, ref.words.get(w)))


def check_score(c, ref, words, what='score', tol=1e-9, result=None):
    """Score and evidence of a message agree with the reference: the right
    clues, chosen correctly, with the right probabilities, combined as
    documented. Any choice among equally strong clues is accepted."""
    words = list(words)
    if result is None:
        result = c.spamprob(list(words), True)
    score, evidence = split_evidence(result)
    what = '%s of %s' % (what, show(words, 80))
    (hname, h), (sname, s) = evidence[:2]
    need_equal((hname, sname), (b'*H*', b'*S*'), what + ': indications')
    clues = evidence[2:]
    used = [w for w, _ in clues]
    need(len(set(used)) == len(used), what + ': repeated clue in {}',
         show(used))
    probs = {}
    for w, p in clues:
        want = ref.prob(w)
        probs[w] = want
        need(near(p, float(want), 1e-9),
             what + ': clue {!r} has probability {}, expected {}', w, p,
             float(want))
        need(0 < p < 1, what + ': probability {} of {!r}', p, w)
        need(strength(want) >= SETTINGS[2] - Fraction(1, 10**12),
             what + ': weak clue {!r} ({})', w, p)
    ps = [p for _, p in clues]
    need(all(a <= b for a, b in zip(ps, ps[1:])),
         what + ': evidence not in increasing order: {}', show(ps))
    need(len(clues) <= SETTINGS[3], what + ': {} clues', len(clues))
    if ref.bigrams:
        check_tiling(ref, words, probs, what)
    else:
        check_selection(ref, words, probs, what)
    want, want_h, want_s = combine(tuple(sorted(probs.values())))
    need(0 <= score <= 1, what + ' is {}', score)
    if not probs:
        need_equal(score, 0.5, what)
    else:
        need(near(score, want, tol), what + ' is {}, expected {}', score, want)
        need(near(h, want_h, tol) and near(s, want_s, tol),
             what + ': indications H={} S={}, expected {} {}', h, s, want_h,
             want_s)
    return score, evidence


def dyadic(f):
    return f.denominator <= 2**20 and f.denominator & (f.denominator - 1) == 0


def must_count(d):
    """Whether a clue of this strength is strong enough beyond any rounding
    (or without any)."""
    least = SETTINGS[2]
    return d >= least + Fraction(1, 10**12) or (
        d == least > 0 and all(map(dyadic, (d,) + tuple(SETTINGS[:3]))))


def check_selection(ref, words, probs, what):
    distinct = set(words)
    for w in probs:
        need(w in distinct, what + ': clue {!r} is not in the message', w)
    eps = Fraction(1, 10**12)
    strong = {w for w in distinct if must_count(strength(ref.prob(w)))}
    unused = strong - set(probs)
    if unused:
        need(len(probs) >= SETTINGS[3], what + ': clues {} left out', show(unused))
        weakest = min(strength(p) for p in probs.values())
        for w in unused:
            need(strength(ref.prob(w)) <= weakest + eps,
                 what + ': clue {!r} left out but a weaker one used', w)


def check_tiling(ref, words, probs, what):
    where = {}
    for i, w in enumerate(words):
        for clue, pos in ((w, (i,)),) + (
                ((pair(words[i - 1], w), (i - 1, i)),) if i else ()):
            where.setdefault(clue, pos)
    taken = {}
    for w in probs:
        need(w in where, what + ': clue {!r} is not in the message', w)
        for i in where[w]:
            need(i not in taken, what + ': clues {!r} and {!r} overlap', w,
                 taken.get(i))
            taken[i] = w
    eps = Fraction(1, 10**12)
    weakest = min((strength(p) for p in probs.values()), default=None)
    for w, pos in where.items():
        d = strength(ref.prob(w))
        if w in probs or not must_count(d):
            continue
        rivals = [strength(probs[taken[i]]) for i in pos if i in taken]
        if any(r >= d - eps for r in rivals):
            continue
        if len(probs) >= SETTINGS[3] and d <= weakest + eps:
            continue
        raise Violation('%s: clue %r was left out for nothing stronger'
                        % (what, w))


def check_same(result1, result2, what, tol=1e-12):
    """Two (score, evidence) results are equal up to rounding."""
    s1, e1 = result1
    s2, e2 = result2
    need(near(s1, s2, tol), what + ': {} vs {}', s1, s2)
    need(len(e1) == len(e2), what + ': evidence {} vs {}', show(e1), show(e2))
    need(all(near(a[1], b[1], tol) for a, b in zip(e1, e2)) and
         sorted((repr(w) for w, _ in e1)) == sorted(repr(w) for w, _ in e2),
         what + ': evidence {} vs {}', show(e1), show(e2))
