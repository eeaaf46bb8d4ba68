"""T06: each URL yields its protocol and path clues and no stray words."""
import itertools
from collections import Counter

from mc import core, tok
from mc.core import need
from mc.checks import t03

PROPERTY = 'T06'
LEVEL = 'exploration'
RULE = ('every address of up to four (thorough: five) pieces from an '
        'alphabet of URL syntax x protocol; every following punctuation of '
        'up to three characters x following text x preceding text; every '
        'pair (thorough: triple) of URLs and texts. Also with the option '
        'that recognises www. and ftp. names; every pair of URLs with 4000 to '
        '131000 characters of text before or between them. Non-trivial: all.')
ASSUMPTIONS = ['the address starts with a character that is not punctuation',
               'clues without text are ignored']

PROTOCOLS = [b'http', b'https', b'ftp']
PIECES = [b'a', b'site', b'.', b'/', b'?', b'=', b'&', b'@', b':', b';',
          b'+', b',', b'$', b'%41', b'-', b'_', b'#', b'~', b'!', b'(', b'8',
          b'long' * 20, b'WORD', b'*', b'|', b'[']
PUNCTUATION = [b'.', b'?', b'!', b':', b'/', b',', b';']
URLS = [b'http://site.com', b'https://a/b?c=d&e', b'ftp://x', b'HTTP://Up/',
        b'http://u:p@h.org:80/~me', b'http://http', b'http://a//b',
        b'https://%41%42/x%20', b'http://1.2.3.4/']
FANCY = [b'www.site.com', b'ftp.site.com', b'www.a', b'WWW.x/y?z', b'http://q/r',
         b'https://www.s.t', b'ftp://ftp.u', b'www.-', b'http://x/www.y',
         b'www.http://z', b'ftp.a.www.b']
AFTER = [b'', b' word', b'\nword', b'<b>word', b'>word', b'"word', b"'word",
         b' http', b'<br>word', b'\xe9word', b' ://word', b'\t', b')',
         b'\x7fword', b' http:// word', b' gopher://word', b' mailto:word', b'</a> word']
BEFORE = [b'', b'word ', b'word', b'word<', b'<a href="', b'(', b'word<b>',
          b'href=', b'x:', b'>', b'http ', b'http:/ ', b'\xe9']
STOP = b' \t\n\r\x0b\x0c<>"\'' + bytes(range(127, 256))


def units(tier, seed):
    t = tier == 'thorough'
    result = [('guts', p, i, j, 5 if t else 4) for p in range(3)
              for i in range(len(PIECES)) for j in range(len(PIECES))]
    result += [('long', i) for i in range(len(PIECES))]
    result += [('after', u) for u in range(len(URLS))]
    result += [('fancy', u, t) for u in range(len(FANCY))]
    result += [('pair', i, j, t) for i in range(len(URLS))
               for j in range(len(URLS))]
    result += [('far', i) for i in range(len(URLS))]
    return result


def explore(unit, rec):
    kind = unit[0]
    if kind == 'guts':
        _, p, i, j, n = unit
        if PIECES[i] in (b'.', b'?', b'!', b':', b'/', b',', b';'):
            return
        for k in range(n - 1 if p == 0 else n - 2):
            few = PIECES if k < n - 2 else PIECES[:9]
            for rest in itertools.product(few, repeat=k):
                url = PROTOCOLS[p] + b'://' + PIECES[i] + PIECES[j] + \
                    b''.join(rest)
                rec.run((b'x ', url, b''))
                if k < 2:
                    rec.run((b'', url, b' next'))
    elif kind == 'long':
        # many pieces
        for j in range(len(PIECES)):
            for n in (5, 8, 9, 10, 15, 16, 17, 31, 33, 64, 100):
                for numbered in (False, True):
                    pieces = b''.join(
                        PIECES[unit[1]] + (b'%d' % k) * numbered + PIECES[j]
                        for k in range(n))
                    rec.run((b'', b'http://x' + pieces, b' next'))
    elif kind == 'far':
        for n in 4096, 65600, 131000:
            for j in range(len(URLS)):
                for at in range(3):
                    rec.run(('far', n, at, unit[1], j))
    elif kind == 'after':
        url = URLS[unit[1]]
        for k in range(4):
            for p in itertools.product(PUNCTUATION, repeat=k):
                for after in AFTER:
                    for before in BEFORE if k < 2 else BEFORE[:1]:
                        rec.run((before, url + b''.join(p), after))
    elif kind == 'fancy':
        url, t = FANCY[unit[1]], unit[2]
        for k in range(3):
            for p in itertools.product(PUNCTUATION, repeat=k):
                for after in AFTER:
                    for before in BEFORE:
                        rec.run(('fancy', before, url + b''.join(p), after))
                        for x in (URLS[0], b'www.b') if t or k == 0 else ():
                            rec.run(('fancy', before, url + b''.join(p),
                                     after + b' and ', x, b''))
    else:
        _, i, j, t = unit
        for between in [b' ', b'\n', b'<', b'">text<a href="', b' and ', b', ',
                        b'. ', b'"', b'\xe9'] + AFTER[1:]:
            for before in BEFORE if t else BEFORE[:4]:
                for after in AFTER if t else AFTER[:4]:
                    rec.run((before, URLS[i], between, URLS[j], after))
            if t:
                for u in URLS:
                    rec.run((b'', URLS[i], between, URLS[j], b' mid ', u,
                             b' end'))


def clues(url):
    url = t03.fold(url)
    if url.startswith((b'http://', b'https://', b'ftp://')):
        protocol, _, rest = url.partition(b'://')
    else:
        protocol, rest = (b'http' if url[:3] == b'www' else b'ftp'), url
    while rest[-1:] and rest[-1:] in b'.:?!/':
        rest = rest[:-1]
    result = [b'proto:' + protocol]
    piece = b''
    for i in range(len(rest) + 1):
        c = rest[i:i + 1]
        if not c or c in b'/;?:@&=+,$.':
            if piece:
                result.append(b'url:' + piece)
            piece = b''
        else:
            piece += c
    return result


def words(text):
    """Tokens of text without URLs; possible lists."""
    text = t03.fold(text)
    for tag in (b'<br>', b'<p>'):
        text = text.replace(tag, b' ')
    result = b''
    i = 0
    while i < len(text):
        end = text.find(b'>', i)
        if text[i:i + 1] == b'<' and end > 0 and end - i <= 257 and \
                text[i + 1:i + 2] not in (b'<', b'>') and \
                text[i + 1:i + 2].strip():
            i = end + 1
        else:
            result += text[i:i + 1]
            i += 1
    want = [Counter()]
    for word in t03.split(result):
        want = [w + Counter(e) for w in want for e in t03.expected(word)]
    return want


def judge(case, rec):
    rec.step()
    fancy = case[0] == 'fancy'
    if case[0] == 'far':
        _, n, at, i, j = case
        texts = [b' ', b'\n', b' end']
        texts[at] += b'text ' * (n // 5)
        got = tok.body_tokens(texts[0] + URLS[i] + texts[1] + URLS[j] + b'\n'
                              + texts[2])
        got.pop(b'url:', None)
        want = Counter(clues(URLS[i])) + Counter(clues(URLS[j]))
        want.update({b'end': at < 2, b'endtext': at == 2,
                     b'text': n // 5 - (at == 2)})
        need(got == want, '{}: tokens {!r}, expected {!r}', case, got, want)
        return
    if fancy:
        case = case[1:]
    source = b''.join(case)
    if b'&#' in source:
        return      # might be a character reference
    outside = b''
    urls = []
    for i, x in enumerate(case):
        if i % 2:
            urls.append(x)
        else:
            outside += x
            if i and x and x[0] not in STOP:
                return      # would continue the URL before it
            if fancy and i + 1 < len(case) and x[-1:].isalnum():
                return      # not at the start of a word
    want = words(outside)
    for u in urls:
        for w in want:
            w.update(clues(u))
    options = ('FANCY_URL_RECOGNITION',) if fancy else ()
    got = tok.body_tokens(source, t=tok.configure(options), options=options)
    got.pop(b'url:', None)
    need(got in want, 'body {!r}: tokens {!r}, expected {!r}', source,
         sorted(got.elements()), sorted(want[0].elements()))
    rec.state(tuple(sorted(got)))
