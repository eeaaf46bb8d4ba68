"""T04: markup, entities, comments and case cannot hide or change words."""
import itertools
from collections import Counter

from mc import core, tok
from mc.core import need
from mc.checks import t03

PROPERTY = 'T04'
LEVEL = 'exploration'
RULE = ('every sequence of up to three (thorough: four) of 60 fragments '
        '(word pieces in both cases, tags, closed and unclosed comments, '
        'style and noframes sections, breaks, references, white space), and '
        'of up to six (thorough: seven) of nine of them, against the text '
        'composed from what each fragment stands for; one or two of them '
        'before, between and after 250 characters, and one with 66000; tags of 1 to '
        '256 characters. Non-trivial: some '
        'fragment is markup.')
ASSUMPTIONS = ['an unclosed "<!--" is not followed by ">" (it would be a '
               'tag), and no unclosed section by the end of one like it']

# name: (source, what it stands for)
FRAGMENTS = [
    (b'win', b'win'), (b'NER', b'ner'), (b'a', b'a'), (b' ', b' '),
    (b'\n', b' '), (b'\xc3\xa9t', b'\xc3\xa9t'), (b'superlongword', None),
    (b'<b>', b''), (b'</b>', b''), (b'<!x>', b''), (b'<FONT SIZE=3>', b''),
    (b'<x\ny>', b''), (b'<1b>', b''), (b'<\xe9>', b''), (b'<i <b>', b''), (b'<a title="zap zip">', b''),
    (b'<img alt="' + b'zap ' * 60 + b'">', b''), (b'</p\t>', b''),
    (b'<!$FS|i|R3$s80sA >', b''), (b'<?xml?>', b''), (b'<brx>', b''),
    (b'<!-- zap -->', b''), (b'<!---->', b''), (b'<!-- zap > zip -->', b''),
    (b'<!-- za\nzip <b> -->', b''), (b'<!-- -- zap - ->x-->', b''),
    (b'<!--' + b' zap' * 200 + b'-->', b''),
    (b'<comment>zap</comment>', b''), (b'<COMMENT x>zap</COMMENT>', b''),
    (b'&#119;', b'w'), (b'&#87;&#073;', b'wi'), (b'&#0000110;', b'n'),
    (b'&#233;', b'\xc3\xa9'), (b'&#32;', b' '), (b'&#8364;',
                                               b'\xe2\x82\xac'),
    (b'&nbsp;', b' '), (b'&NBSP;', b' '), (b'<p>', b' '), (b'<br>', b' '),
    (b'<BR>', b' '), (b'<P>', b' '), (b'&#10;', b' '),
    (b'<style>zap</style>', b''), (b'<STYLE type="x">zap {zip}\n</STYLE>',
                                   b''),
    (b'< style >zap <b>zip</b></style>', b''), (b'<styles>', b''),
    (b'<noframes>zap</noframes>', b''),
    (b'< NOFRAMES >zap <br>zip</NoFrames >', b''),
    (b'&amp', None), (b' < ', b' < '), (b' i<< 5', b' i<< 5'), (b'<>', b'<>'), (b'&;', None), (b'&#;', None),
    # openings without an end, and ends without an opening
    (b'<!--', None), (b'<comment>', b''), (b'<style>', b''),
    (b'<noframes>', b''), (b'</style>', b''), (b'</noframes>', b''),
    (b'</comment>', b''), (b'-->', None), (b'&#x', None), (b'&#12', None),
]
FRAGMENTS = [(a, a if b is None else b) for a, b in FRAGMENTS]
FEW = [0, 2, 3, 7, 21, 29, 38, 42, 46]
INDEX = {a: i for i, (a, b) in enumerate(FRAGMENTS)}

OPENED = {b'<!--': 'comment', b'<comment>': 'comment', b'<style>': 'style',
          b'<noframes>': 'noframes'}


def closes(source):
    s = source.lower()
    return {k for k, ends in (('comment', (b'-->', b'</comment>')),
                              ('style', (b'</style>',)),
                              ('noframes', (b'</noframes',)))
            if any(e in s for e in ends)}


CLOSES = [closes(a) for a, b in FRAGMENTS]


def units(tier, seed):
    t = tier == 'thorough'
    n = len(FRAGMENTS)
    result = [('all', i, j, 4 if t else 3) for i in range(n)
              for j in range(n)]
    result += [('few', i, j, 7 if t else 5) for i in FEW for j in FEW]
    result.append(('entities',))
    result += [('far', i) for i in range(n)]
    return result


def explore(unit, rec):
    if unit[0] == 'entities':
        for n in range(1, 257):
            rec.run(('plain', b'wi<' + b'x' * n + b'>ner', b'winer'))
            rec.run(('plain', b'wi</' + b'x\xe9"' * (n // 3) + b'>ner',
                     b'winer'))
        for c in range(33, 127):
            if chr(c) not in '<>&;@':
                for form in (b'&#%d;', b'&#%04d;', b'&#%07d;', b'&#%08d;',
                             b'&#%011d;', b'&#%0300d;'):
                    rec.run(('plain', b'wi%b\n' % (form % c),
                             (b'wi' + bytes([c])).lower() + b'\n'))
                rec.run(('plain', b'wi' + bytes([c]) + b'NER',
                         (b'wi' + bytes([c])).lower() + b'ner'))
        return
    if unit[0] == 'far':
        for n in 250, 66000:
            for j in [None] + FEW * (n < 1000):
                s = (unit[1],) + (() if j is None else (j,))
                for at in range(len(s) + 1):
                    if allowed(s):
                        rec.run(('far', s, at, n))
        return
    kind, i, j, n = unit
    some = range(len(FRAGMENTS)) if kind == 'all' else FEW
    for k in range(n - 1):
        for rest in itertools.product(some, repeat=k):
            s = (i, j) + rest
            if allowed(s):
                rec.run(('frag', s), any(x >= 7 for x in s))


def allowed(seq):
    opened = set()
    tag = False
    for x in seq:
        source = FRAGMENTS[x][0]
        if CLOSES[x] & opened or tag and b'>' in source:
            return False
        if source in OPENED:
            opened.add(OPENED[source])
            tag = tag or source == b'<!--'
        if source.startswith(b'&') and b';' not in source and \
                x != seq[-1]:
            # could become a reference with what follows
            return seq[-1] == x
    return True


def far(s, at, n):
    source, text = [b''.join([b'wi'] + x[:at] + [b' ', b'text\n' * (n // 5)]
                             + x[at:] + [b'ner'])
                    for k in (0, 1) for x in [[FRAGMENTS[i][k] for i in s]]]
    want = Counter()
    for word, number in Counter(t03.split(text)).items():
        for e in t03.expected(word)[0]:
            want[e] += number
    got = tok.body_tokens(source)
    need(got == want, '{} characters at {} of {!r}: tokens {!r}, expected '
         '{!r}', n, at, [FRAGMENTS[i][0] for i in s], got, want)


def judge(case, rec):
    rec.step()
    if case[0] == 'plain':
        source, text = case[1:]
    elif case[0] == 'far':
        far(*case[1:])
        return
    else:
        source = b'wi' + b''.join(FRAGMENTS[i][0] for i in case[1]) + b'ner'
        text = b'wi' + b''.join(FRAGMENTS[i][1] for i in case[1]) + b'ner'
    want = [Counter()]
    for word in t03.split(text):
        want = [w + Counter(e) for w in want for e in t03.expected(word)]
    got = tok.body_tokens(source)
    need(got in want, 'body {!r}: tokens {!r}, expected {!r}', source,
         sorted(got.elements()), sorted(want[0].elements()))
    rec.state(tuple(sorted(got)))
