"""M04: the evidence header lists exactly the selected clues."""
import ast
import email.header
import itertools
import re

from mc import core
from mc.core import need, need_equal, show

PROPERTY = 'M04'
LEVEL = 'exploration'
RULE = ('every list of up to two (thorough: three) clues from an alphabet of '
        'adversarial words x probabilities around the cutoffs x cutoffs; '
        'every word length 0..90 at every position of the wrap boundary; '
        'lists of up to 150 clues; read from the header of the message and '
        'of the serialised and re-parsed message. Non-trivial: at least one '
        'clue.')
ASSUMPTIONS = ['text clues may be shown in their encoded (RFC 2047) form',
               'no clue is equal to one of the overall indications']

WORDS = [b'word', b'', b' ', b'\n', b'\r\nX-Evil: 1', b'\n\nbody', b'\r',
         b"'", b'"', b'\'"', b'\\', b"\\'", b'\x00', b'\xff', b'\xe9\n\t',
         b';', b'a; b', b': 0.50; ', b"b'x': 0.50", b'subject:x',
         b'=?utf-8?q?x?=', b'=?utf-8?b?Cg==?=', b'a,b <c>', b'\x7f\x1b',
         b'x' * 78, b'x y ' * 30, b'\xff' * 40, b'*h*', b'H', b'*S* ',
         b'*', b'%s', b'%', b'{}', 'text', 'caf\xe9', 'a b', 'a;b', "it's",
         '\u2028', 'x' * 100, '\xe9' * 40, 'a\nX-Evil: 1', '\U0001f600', '',
         '*H*', '*S*']
FEW = [b'word', b'\r\nX-Evil: 1', b"'", b'; ', b'x' * 60, b'\xff', 'caf\xe9',
       b' ', b'"\'']
CUTOFFS = [.5, .1, 0.0, .05, .4]
SCORES = [0.0, .05, .0499, .1, .1001, .4, .45, .5, .55, .6, .8999, .9, .95,
          .9501, 1.0]


def units(tier, seed):
    t = tier == 'thorough'
    result = [('one', i) for i in range(len(WORDS))]
    result += [('pair', i) for i in range(len(WORDS))]
    if t:
        result += [('triple', i, j) for i in range(len(WORDS))
                   for j in range(len(WORDS))]
    else:
        result += [('few', i, j) for i in range(len(FEW))
                   for j in range(len(FEW))]
    result += [('wrap', i, t) for i in range(0, 91)]
    result += [('long', n) for n in range(1, 151, 7 if not t else 1)]
    return result


def explore(unit, rec):
    kind = unit[0]
    if kind == 'one':
        w = WORDS[unit[1]]
        for cut in CUTOFFS:
            for s in SCORES:
                for h in ((.3, .7), (1.0, 0.0), (0.0, 1.0), (.5, .5)):
                    rec.run((cut, h, ((w, s),)))
    elif kind == 'pair':
        w = WORDS[unit[1]]
        for v in WORDS:
            for cut, scores in ((.5, (.1, .9)), (.1, (.1, .5)),
                                (.1, (.5, .9)), (.1, (.5, .5))):
                rec.run((cut, (.2, .8), ((w, scores[0]), (v, scores[1]))))
    elif kind == 'triple':
        for w in WORDS:
            rec.run((.5, (.2, .8), ((WORDS[unit[1]], .1),
                                    (WORDS[unit[2]], .2), (w, .7))))
    elif kind == 'few':
        for w in FEW:
            for cut, scores in ((.5, (.1, .2, .7)), (.1, (.1, .5, .9)),
                                (.1, (.5, .1, .5)), (.1, (.01, .02, .3))):
                rec.run((cut, (.2, .8), ((FEW[unit[1]], scores[0]),
                                         (FEW[unit[2]], scores[1]),
                                         (w, scores[2]))))
    elif kind == 'wrap':
        n = unit[1]
        step = 1 if unit[2] else 3
        for m in range(0, 91, step):
            rec.run((.5, (.2, .8), ((b'x' * n, .1), (b'y' * m, .9))))
            rec.run((.5, (.2, .8), ((b'x ' * (n // 2), .1),
                                    (b'y z ' * (m // 4), .9))))
            rec.run((.5, (.2, .8), ((b'a', .1), (b'x' * n, .1),
                                    (b'y' * m, .9), (b'end', .95))))
    else:
        n = unit[1]
        rec.run((.5, (.2, .8), tuple((b'clue%d' % i, i / n)
                                     for i in range(n))))
        rec.run((.2, (.2, .8), tuple((b'clue %d' % i * (i % 9), i / n)
                                     for i in range(n))))


LITERAL = re.compile(r'''b?(?:'(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*")''')
NUMBER = re.compile(r': (\d\.\d\d)(?:;[ \t]+|$)')
RAW = (b'From: f@x.org\nTo: t@x.org\nX-Spambayes: z\nSubject: s\n\n'
       b'body\n\nmore: x\n')


def parse(value):
    """[(word, probability as text), ...]"""
    result = []
    value = re.sub('[\r\n]', '', value)        # unfold
    pos = 0
    while pos < len(value):
        m = LITERAL.match(value, pos)
        need(m, 'evidence {!r} is not a list of clues at {!r}', value,
             value[pos:])
        word = ast.literal_eval(m.group())
        n = NUMBER.match(value, m.end())
        need(n, 'evidence {!r} has no probability at {!r}', value,
             value[m.end():])
        result.append((word, n.group(1)))
        pos = n.end()
    return result


def decoded(word):
    return ''.join(b if isinstance(b, str) else
                   b.decode(charset or 'ascii')
                   for b, charset in email.header.decode_header(word))


def same(word, got):
    if isinstance(word, bytes):
        return got == word
    if not isinstance(got, str):
        return False
    try:
        text = decoded(got)
    except UnicodeError:
        text = None
    return plain(word) in (plain(got), plain(text))


def plain(text):
    # line breaks within text clues may be encoded as spaces or lost
    return text and ''.join(text.split())


def judge(case, rec):
    from sbclassifier import message as M
    cut, (h, s), clues = case
    evidence = [(b'*H*', h), (b'*S*', s)] + list(clues)
    want = [(w, p) for i, (w, p) in enumerate(evidence)
            if i < 2 or p <= cut or p >= 1 - cut]
    original = M.from_bytes(RAW)
    m = M.from_bytes(RAW)
    rec.step()
    m.add_sb_headers(.5, list(evidence), include_evidence=True,
                     **({} if cut == .5 else dict(clue_mailheader_cutoff=cut)))
    again = M.from_bytes(m.as_bytes())
    text = M.from_string(m.as_string())
    for which, msg in (('', m), ('serialised: ', again), ('text: ', text)):
        found = msg.get_all('X-Spambayes-Evidence')
        need(found is not None and len(found) == 1, '{}{} evidence headers',
             which, found and len(found))
        need_equal([(k, v) for k, v in msg.items()
                    if k not in ('X-Spambayes-Evidence',
                                 'X-Spambayes-Classification')],
                   original.items(), which + 'other headers')
        need_equal(msg.get_payload().replace('\r\n', '\n'),
                   original.get_payload(), which + 'body')
        got = parse(str(found[0]))
        need(len(got) == len(want), '{}{} clues in {!r}, expected {}', which,
             len(got), show(found[0], 1000), show(want))
        for (w, p), (word, number) in zip(want, got):
            need(same(w, word), '{}clue {!r}, expected {!r}', which, word, w)
            need(number == '%.2f' % p, '{}probability {} of {!r}, expected '
                 '{!r}', which, number, w, p)
    for line in m['X-Spambayes-Evidence'].split('\n')[1:]:
        need(line[:1] in (' ', '\t'), 'line {!r} of the header', line)
    rec.state((cut, tuple(p for _, p in clues), len(want)))
