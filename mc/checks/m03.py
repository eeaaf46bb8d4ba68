"""M03: classification, score and level headers agree with the probability."""
import itertools
import math
from decimal import Decimal, ROUND_HALF_EVEN, getcontext

from mc import core
from mc.core import need, need_equal

PROPERTY = 'M03'
LEVEL = 'exploration'
RULE = ('every multiple of 1/2000 (thorough: 1/20000) in [0, 1], and up to 3 '
        '(thorough: 40) floating-point neighbours on each side of every '
        'threshold, power of ten and tenth, x every combination of options, '
        'digits and notations. Non-trivial: all.')
ASSUMPTIONS = ['within 1e-12 of a limit of the logarithmic hint, and within '
               '1e-9 (but not at) a full tenth, either answer is accepted']

CLASSES = ('ham', 'unsure', 'spam')
NOTES = [c for k in range(4) for c in itertools.combinations(CLASSES, k)]


def probabilities(tier):
    t = tier == 'thorough'
    n, around = (20000, 40) if t else (2000, 3)
    result = {k / n for k in range(n + 1)}
    special = {k / 10 for k in range(11)} | {.005, .995, .2, .9, .5} | {
        float('1e-%d' % k) for k in range(1, 20)} | {
        1 - float('1e-%d' % k) for k in range(1, 17)} | {
        5e-324, 2.2250738585072014e-308, 1e-100, 1e-300, 1 - 2 ** -53,
        .0049999, .00005, .994999, .995001}
    for p in special:
        low = high = p
        result.add(p)
        for _ in range(around):
            low = math.nextafter(low, -1)
            high = math.nextafter(high, 2)
            result |= {x for x in (low, high) if 0 <= x <= 1}
    return sorted(result), sorted(special)


def units(tier, seed):
    ps, special = probabilities(tier)
    result = [('plain', tuple(ps[i:i + 100]), tier == 'thorough')
              for i in range(0, len(ps), 100)]
    result += [('full', p) for p in special]
    result += [('classes',)]
    return result


def explore(unit, rec):
    if unit[0] == 'plain':
        for p in unit[1]:
            for digits in (0, 1, 2, 3, 9):
                for log in (False, True):
                    rec.run((p, digits, log, True, True, CLASSES, CLASSES,
                             False))
            if unit[2]:
                for notes in NOTES:
                    rec.run((p, 2, True, True, True, notes, NOTES[-1], True))
    elif unit[0] == 'full':
        p = unit[1]
        for digits in (0, 1, 2, 4, 17, 30):
            for log, score, level, id in itertools.product((False, True),
                                                           repeat=4):
                for to in NOTES:
                    for subject in (NOTES if digits == 2 else ((), to)):
                        rec.run((p, digits, log, score, level, to, subject,
                                 id))
    else:
        for a in CLASSES:
            for b in CLASSES + PROBS:
                for c in CLASSES + PROBS:
                    rec.run(('classes', (a, b, c)))
                    rec.run(('classes', (c, b, a)))
        for wrong in ('spam', 'ham', 1, 0, None, 2, b'spam', True):
            rec.run(('wrong', wrong))


DEFAULTS = dict(include_thermostat=False, include_score=False,
                header_score_digits=2, header_score_logarithm=False,
                add_unique_id=True)
PROBS = (0.0, .1999, .2, .5, .9, .9001, 1.0)


def class_of(p):
    return 'ham' if p < 0.20 else 'spam' if p > 0.90 else 'unsure'


def judge(case, rec):
    from sbclassifier import message as M
    if case[0] == 'classes':
        m = M.Message()
        for x in case[1]:
            want = x if isinstance(x, str) else class_of(x)
            got = m.set_classification(M.Classification[x]
                                       if isinstance(x, str) else x)
            for v in (got, m.classification()):
                need(v is M.Classification[want],
                     'after classifying as {!r}: {!r}', x, v)
        return
    if case[0] == 'wrong':
        m = M.Message()
        m.set_classification(.95)
        try:
            m.set_classification(case[1])
        except (ValueError, TypeError):
            pass
        else:
            # numbers other than floats might be accepted as probabilities
            need(isinstance(case[1], int) and 0 <= case[1] <= 1 and
                 m.classification() is M.Classification[class_of(case[1])],
                 'classified as {!r}: {!r}', case[1], m.classification())
            return
        need(m.classification() is M.Classification.spam,
             'refusing {!r} changes the classification', case[1])
        return
    p, digits, log, score, level, to, subject, id = case
    rec.step()
    m = M.from_bytes(b'To: t\nSubject: s\nX-Spambayes: 1\n\nbody\n',
                     'the-id' if id else None)
    options = dict(include_thermostat=level, include_score=score,
                   header_score_digits=digits, header_score_logarithm=log,
                   add_unique_id=id,
                   notate_to=tuple(M.Classification[c] for c in to),
                   notate_subject=tuple(M.Classification[c] for c in subject))
    if digits == 2:
        # leave out what is the default
        options = {k: v for k, v in options.items()
                   if v != DEFAULTS.get(k, ())}
    m.add_sb_headers(p, [], **options)
    c = class_of(p)
    what = 'p = %r: ' % p
    need_equal(m.get_all('X-Spambayes-Classification'), [c],
               what + 'classification header')
    need(m.classification() is M.Classification[c],
         '{}recorded classification {!r}, not {}', what, m.classification(),
         c)
    need_equal(m.get_all('To'), [c + '@spambayes.invalid,t'
                                 if c in to else 't'], what + 'recipients')
    need_equal(m.get_all('Subject'), [c + ',s' if c in subject else 's'],
               what + 'subject')
    got = m.get_all('X-Spambayes-Spam-Probability')
    if not score:
        need(got is None, '{}score header not asked for: {}', what, got)
    else:
        need(got is not None and len(got) == 1, '{}score headers {}', what,
             got)
        need(got[0] in scores(p, digits, log), '{}score header {!r}, '
             'expected {}', what, got[0], sorted(scores(p, digits, log)))
    got = m.get_all('X-Spambayes-Level')
    if not level:
        need(got is None, '{}level header not asked for: {}', what, got)
    else:
        need(got is not None and len(got) == 1 and set(got[0]) <= {'*'} and
             len(got[0]) in levels(p), '{}level header {!r}, expected {} '
             'stars', what, got, sorted(levels(p)))
    need(m.get('X-Spambayes-Evidence') is None, '{}evidence not asked for',
         what)
    need_equal(m.get_all('X-Spambayes-MailId'), ['the-id'] if id else None,
               what + 'id header')
    need_equal(m.get_payload(), 'body\n', what + 'body')
    rec.state((c, digits, log, score, level, to, subject, id))


def levels(p):
    tenth = Decimal(p) * 10
    near = int(tenth.to_integral_value(ROUND_HALF_EVEN))
    if p == near / 10:
        return {near}
    if abs(tenth - near) < Decimal('1e-9'):
        return {near - 1, near} - {-1}
    return {int(tenth)}


def scores(p, digits, log):
    getcontext().prec = 1200
    text = str(Decimal(p).quantize(Decimal(1).scaleb(-digits),
                                   ROUND_HALF_EVEN))
    if 'E' in text:
        text = '{:f}'.format(Decimal(text))
    result = {text}
    if not log or p in (0, 1):
        return result
    getcontext().prec = 60
    for end in (Decimal(p), 1 - Decimal(p)):
        limit = Decimal('0.005')
        if end > limit + Decimal('1e-12'):
            continue
        n = -end.log10()
        hints = {int(n + d) for d in (Decimal('-1e-9'), 0, Decimal('1e-9'))}
        marked = {'%s (%d)' % (text, h) for h in hints}
        if end < limit - Decimal('1e-12') or p in (.005, .995):
            result -= {text}
        result |= marked
    return result
