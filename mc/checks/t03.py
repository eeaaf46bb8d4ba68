"""T03: body words become tokens by the documented length rules."""
import itertools
from collections import Counter

from mc import core, tok
from mc.core import need, need_equal, show

PROPERTY = 'T03'
LEVEL = 'exploration'
RULE = ('every word length 1..45 (and around 50, 100, 1000) x first '
        'character x number of 8-bit characters; every placement of one or '
        'two @ and dots in words of every length 1..45 (thorough: two dots); '
        'every sequence of up to three (thorough: four) words and white '
        'space; upper case; bodies of 300 and 12000 words around every word. '
        'Non-trivial: the body is not blank.')
ASSUMPTIONS = ['percentages exactly between two integers may be rounded '
               'either way']

SPACES = [b' ', b'\n', b'\t', b'\r\n', b'\x0b', b'\x0c', b'  \n ', b'\n\n']
WORDS = [b'a', b'of', b'the', b'The', b'twelve-chars', b'thirteenchars',
         b'XYZ', b'\xe9\xe8\xea', b'\xe9' * 13, b'name@example.com',
         b'x' * 27 + b'@example.com', b'x' * 28 + b'@example.com',
         b'a@b@example.com', b'name@examplecom', b'.' * 13, b'@' * 14, b'it',
         b'\xc9' + b'A' * 14, b'n@e.c', b'123', b'4' * 20, b"don't", b'$9.95',
         b'\x01\x02\x03', b'a,b;c', b'\xa0\xa0\xa0', b'\x85\x85\x85\x85',
         b'1@2.345678901', b'@.xxxxxxxxxxx', b'xxxxxxxxxxxx.@', b'A@B.ABCDEFGHI']
FIRST = [b'a', b'Z', b'0', b'-', b'\xe9', b'\xff', b'\x80', b'%', b'(', b'*']
LENGTHS = list(range(1, 46)) + [49, 50, 51, 99, 100, 101, 999, 1000]


def units(tier, seed):
    t = tier == 'thorough'
    result = [('length', n) for n in LENGTHS]
    result += [('email', n, t) for n in range(1, 46)]
    result += [('words', i, j, 4 if t else 3) for i in range(len(WORDS))
               for j in range(len(WORDS))]
    result += [('spaces',), ('runs',)]
    result += [('many', i) for i in range(len(WORDS))]
    return result


def explore(unit, rec):
    kind = unit[0]
    if kind == 'length':
        n = unit[1]
        for first in FIRST:
            for high in range(0, n + 1 if n < 50 else 10):
                # 8-bit characters at the end, then at the start
                rest = b'x' * max(0, n - 1 - high) + b'\xe9' * high
                rec.run((first + rest)[:n])
                rec.run((first + rest[::-1])[:n])
    elif kind == 'email':
        _, n, t = unit
        base = bytearray(b'Abcdefghijklmnopqrstuvwxyz0123456789abcdefghij'[:n])
        for i in range(n):
            one = base[:]
            one[i] = ord('@')
            rec.run(bytes(one))
            for j in range(n):
                if i != j:
                    two = one[:]
                    two[j] = ord('.')
                    rec.run(bytes(two))
                    more = two[:]
                    for k in range(n if t else min(n, 2)):
                        more = two[:]
                        if k not in (i, j):
                            for c in b'@.\xe9' if t else b'@\xe9':
                                more[k] = c
                                rec.run(bytes(more))
    elif kind == 'words':
        _, i, j, n = unit
        a, b = WORDS[i], WORDS[j]
        rec.run(a + b' ' + b)
        rec.run(a + b'\n' + b)
        if n > 2:
            for c in WORDS:
                rec.run(a + b' ' + b + b'\t' + c + b'\n')
                if n > 3:
                    for d in WORDS[::3]:
                        rec.run(b' '.join((a, b, c, d)))
    elif kind == 'many':
        for n in 300, 12000:
            for before, after in (0, n), (n, 0), (n, n):
                rec.run(('many', before, WORDS[unit[1]], after))
    elif kind == 'spaces':
        for a in SPACES:
            for b in SPACES + [b'']:
                for c in SPACES + [b'']:
                    for w in WORDS[::2]:
                        rec.run(b + w + a + b'second' + c + w)
    else:
        for k in range(7):
            for s in itertools.product((b'a', b'of', b'the', b'thirteenchars'),
                                       repeat=k):
                rec.run(b' '.join(s))


SPACE = b' \t\n\r\x0b\x0c'


def split(body):
    result, word = [], b''
    for i in range(len(body)):
        c = body[i:i + 1]
        if c in SPACE:
            if word:
                result.append(word)
            word = b''
        else:
            word += c
    return result + [word] if word else result


def fold(word):
    return bytes(c + 32 if 65 <= c <= 90 else c for c in word)


def expected(word):
    """The possible lists of tokens of a word."""
    n = len(word)
    if n < 3:
        return [[]]
    if n <= 12:
        return [[word]]
    if n < 40 and word.count(b'@') == 1 and b'.' in word:
        name, _, address = word.partition(b'@')
        return [[b'email name:' + name, b'email addr:' + address]]
    skip = [b'skip:' + word[:1] + b' %d' % (n - n % 10)]
    high = sum(c > 127 for c in word)
    if not high:
        return [skip]
    below, rest = divmod(100 * high, n)
    return [skip + [b'8bit%%:%d' % p] for p in
            ([below, below + 1] if 2 * rest == n else
             [below + (2 * rest > n)])]


def judge(body, rec):
    rec.step()
    if isinstance(body, tuple):
        _, n, word, m = body
        got = tok.body_tokens(b'Text ' * n + word + b'\n' + b'also ' * m)
        got.subtract({b'text': n, b'also': m})
        want = [Counter(e) for e in expected(fold(word))]
        need(+got in want and min(got.values()) >= 0,
             '{} words, {!r}, {} words: tokens {!r}, expected {!r}', n, word,
             m, got, want)
        return
    want = [Counter()]
    for word in split(fold(body)):
        want = [w + Counter(e) for w in want for e in expected(word)]
    got = tok.body_tokens(body)
    need(got in want, 'body {!r}: tokens {!r}, expected {!r}', body,
         sorted(got.elements()), sorted(want[0].elements()))
    rec.state(tuple(sorted(got)))
