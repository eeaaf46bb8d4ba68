"""T10: the other optional analyses report exactly what the message says."""
import base64
import itertools
import math
import sys
import types
import urllib.parse
from collections import Counter

from mc import tok
from mc.core import need
from mc.checks.t09 import compare, counted, encode

PROPERTY = 'T10'
LEVEL = 'exploration'
RULE = ('(a) every body of up to six (thorough: eight) words of one, two, '
        'three and thirteen characters, and every run of up to 300 short '
        'words; (b) every list of up to three (thorough: four) parts out of '
        '14 (octet streams and images of several sizes and encodings, text, '
        'nested) and every image size up to 300 and around powers of two; '
        '(c) every list of up to two (thorough: three) NNTP-Posting-Host '
        'headers out of 16; (d) every choice of absent, valid or wrong for '
        'seven (thorough: nine) Habeas headers; (e) every text of up to five '
        '(thorough: six) out of ten 8-bit, control and plain characters; (f) '
        'every URL made of protocol, user, host, port and up to three '
        '(thorough: four) pieces of path out of 14, with and without looking '
        'up its addresses; (g) every body of up to '
        'three (thorough: four) of 26 fragments of scripts, frames and '
        'attributes. The additional tokens are compared, with the option '
        'alone and with others. Non-trivial: all.')
ASSUMPTIONS = ['a run of short words at the very end may count or not',
               'octet streams may be taken decoded or as they are',
               'name lookups are answered by a stand-in',
               'hosts of URLs are dotted numbers or contain a letter']

ADDRESSES = ('10.1.2.3', '192.0.2.129')


class StandIn:
    """The optional package that looks up and caches addresses."""
    def __init__(self, *args, **kw):
        pass

    def lookup(self, question, *args):
        return list(ADDRESSES) if 'h.com' in question else []

    def close(self):
        pass


sys.modules['spambayes'] = types.ModuleType('spambayes')
sys.modules['spambayes.dnscache'] = sys.modules['spambayes'].dnscache = \
    types.ModuleType('spambayes.dnscache')
sys.modules['spambayes.dnscache'].cache = StandIn

SHORT, OCTETS, IMAGES, NNTP, HABEAS, REDUCE, QUESTION, APART, LOOKUP = (
    'X_SHORT_RUNS', 'CHECK_OCTETS', 'IMAGE_SIZE', 'X_MINE_NNTP_HEADERS',
    'X_SEARCH_FOR_HABEAS_HEADERS', 'X_REDUCE_HABEAS_HEADERS',
    'REPLACE_NONASCII_CHARS', 'X_PICK_APART_URLS', 'X_LOOKUP_IP')

WORDS = ['v', 'bb', 'ccc', 'thirteenchars']
HOSTS = ['host.example.com', 'HOST.example.com', 'one.example.org',
         'unknown.example.net', 'localhost', 'a.b', '10.1.2.3', '10.1.2.4',
         '192.0.2.1', '255.255.255.255', '127.0.0.1', '0.0.0.0', '1.2.3',
         '256.1.1.1', 'a b', '10.1.2.3.4', 'news.deep.sub.example.net',
         '192.0.2.7', 'other.example.org']
HABEAS_TEXT = [
    'winter into spring', 'brightly anticipated', 'like Habeas SWE (tm)',
    'Copyright 2002 Habeas (tm)',
    'Sender Warranted Email (SWE) (tm). The sender of this',
    'email in exchange for a license for this Habeas',
    'warrant mark warrants that this is a Habeas Compliant',
    'Message (HCM) and not spam. Please report use of this',
    'mark in spam to <http://www.habeas.com/report/>.']
CHARS = [b'a', b'B', b'\xe9', b'\x80', b'\xff', b'\x01', b'\x7f', b' ',
         b'\n', b'?']
USERS = ['', 'u@', 'u:p@', 'www.paypal.com@', 'a@b@', '%75@', 'www.x.com%40']
NAMES = ['h.com', '10.1.2.3', 'a-b.example.org', 'h', '1.2.3.4x', '%68.com']
PORTS = ['', ':', ':80', ':443', ':8080', ':0', ':21']
PIECES = ['/', 'aa', '?', 'b=c', '%41', '%zz', '%2f', '%40', '%3a', '%',
          '%e9', '.', '%25', ':80']
FRAGMENTS = ['<script', '</script', '< script', '<  iframe', '</ iframe',
             '<iframe', '>', ' ', 'src=cid:', "src='cid:", 'src="cid:',
             'asrc=cid:', 'src=cid', 'height=0', 'width="0', "height='0",
             'height=10', 'x', '<scripts', '<p>', 'width=01', '<SCRIPT',
             '\n', '-', 'WIDTH=0', 'word']


def units(tier, seed):
    t = tier == 'thorough'
    result = [('short', i, j, 8 if t else 6) for i in range(4)
              for j in range(4)]
    result += [('run', i) for i in range(10)]
    result += [('parts', i, 4 if t else 3) for i in range(len(PARTS))]
    result += [('size', i) for i in range(10)]
    result += [('nntp', i, 3 if t else 2) for i in range(len(HOSTS))]
    result += [('habeas', i, j, 9 if t else 7) for i in range(3)
               for j in range(3)]
    result += [('text', i, 6 if t else 5) for i in range(len(CHARS))]
    result += [('url', i, j, t) for i in range(len(USERS))
               for j in range(len(NAMES))]
    result += [('html', i, 4 if t else 3) for i in range(len(FRAGMENTS))]
    return result


def explore(unit, rec):
    kind = unit[0]
    if kind == 'short':
        _, i, j, n = unit
        for k in range(n - 1):
            for rest in itertools.product(range(4), repeat=k):
                rec.run(('short', (i, j) + rest))
        if j == 0:
            rec.run(('short', (i,)))
            if i == 0:
                rec.run(('short', ()))
    elif kind == 'run':
        for n in range(1 + unit[1], 301, 10):
            for m in (0, 1, n - 1, n, 2 * n):
                for word in 0, 1:
                    rec.run(('short', (word,) * m + (2,) + (word,) * n +
                             (2,)))
    elif kind == 'parts':
        _, i, n = unit
        for k in range(n):
            for rest in itertools.product(range(14), repeat=k):
                for shape in range(3):
                    rec.run(('parts', (i,) + rest, shape))
    elif kind == 'size':
        sizes = set(range(301))
        for k in range(8, 18):
            r = int(2 ** (k + .5))
            sizes |= {2 ** k - 1, 2 ** k, 2 ** k + 1, r - 1, r, r + 1, r + 2}
        for n in sorted(sizes)[unit[1]::10]:
            for way in 'plain', 'base64', 'two', 'nested':
                rec.run(('size', n, way))
    elif kind == 'nntp':
        _, i, n = unit
        for k in range(n):
            for rest in itertools.product(HOSTS, repeat=k):
                rec.run(('nntp', (HOSTS[i],) + rest, 'NNTP-Posting-Host'))
        rec.run(('nntp', (HOSTS[i],), 'nntp-posting-host'))
        rec.run(('nntp', (HOSTS[i],), 'X-NNTP-Posting-Host'))
        rec.run(('nntp', (HOSTS[i] + ' ',), 'NNTP-Posting-Host'))
    elif kind == 'habeas':
        _, i, j, n = unit
        for rest in itertools.product((0, 1, 2), repeat=n - 2):
            rec.run(('habeas', (i, j) + rest + (i,) * (9 - n)))
        # all but one or two alike
        for k in range(9):
            for m in range(9):
                for other in range(3):
                    states = [i] * 9
                    states[k] = j
                    states[m] = other
                    rec.run(('habeas', tuple(states)))
    elif kind == 'text':
        _, i, n = unit
        for k in range(n):
            for rest in itertools.product(CHARS, repeat=k):
                rec.run(('text', CHARS[i] + b''.join(rest)))
        rec.run(('text', CHARS[i] * 20))
        for c in range(i, 256, len(CHARS)):
            for other in b'', CHARS[i], b'word':
                c_ = bytes((c,))
                if c not in b'<&\r':
                    rec.run(('text', b'ab' + c_ + other + b'cd'))
    elif kind == 'url':
        _, i, j, t = unit
        start = USERS[i] + NAMES[j]
        for proto in 'http', 'https', 'ftp':
            for port in PORTS:
                url = proto + '://' + start + port
                for path in '', '/', '/x', '/x?y=z', '?q', '/u@v', '/x:99':
                    rec.run(('url', url + path))
        n = 4 if t else 3
        for k in range(1, n + 1):
            for pieces in itertools.product(
                    PIECES if k < 4 else PIECES[::2], repeat=k):
                if t or k < 3 or (i + j) % 6 == 0:
                    rec.run(('url', 'http://' + start + '/' +
                             ''.join(pieces)))
    else:
        _, i, n = unit
        for k in range(n):
            for rest in itertools.product(FRAGMENTS if k < 3 else
                                          FRAGMENTS[::2], repeat=k):
                rec.run(('html', (FRAGMENTS[i],) + rest))


def check(raw, option, want, rec, alternatives=()):
    plain = counted(raw, ())
    options = option if isinstance(option, tuple) else (option,)
    others = tuple(o for o in (SHORT, 'COUNT_ALL_HEADER_LINES')
                   if o not in options)
    found = counted(raw, options)
    for w in alternatives:
        if found == plain + w:
            want = w
    compare(raw, plain, found, want, '+'.join(options))
    compare(raw, counted(raw, others), counted(raw, others + options), want,
            '+'.join(options) + ' with others')
    rec.step(4)
    rec.state(tuple(sorted(want.elements())))


def two(n):
    """The largest k with 2**k <= n."""
    return n.bit_length() - 1


def judge(case, rec):
    globals()['judge_' + case[0]](case, rec)


def judge_short(case, rec):
    words = case[1]
    runs, now = [0], 0
    for w in words:
        if w < 2:
            now += 1
        else:
            runs.append(now)
            now = 0
    want = [encode('short:%d' % two(n) for n in (max(r),) if n)
            for r in (runs, runs + [now])]
    raw = b'Subject: s\n\n' + ' '.join(WORDS[w] for w in words).encode()
    check(raw, SHORT, want[0], rec, want)


def octets(content, how):
    """(part, size if image, octet tokens or None)"""
    kind, encoding = how
    head = b'Content-Type: ' + kind + b'\n'
    if encoding == 'base64':
        head += b'Content-Transfer-Encoding: base64\n'
        coded = base64.encodebytes(content)
    else:
        coded = content
    return head + b'\n' + coded, coded


PARTS = [(b'application/octet-stream', '', c) for c in
         (b'', b'x', b'fives', b'sixsix', b'MZ\x90 \x80\x01',
          b' \t two', b'a b c d e')] + \
    [(b'application/octet-stream', 'base64', c)
     for c in (b'sixsix', b'\0\xff')] + \
    [(b'Application/Octet-Stream; name=x.exe', '', b'UPPER case'),
     (b'image/png', '', b'p' * 20), (b'image/gif', 'base64', b'g' * 45),
     (b'image/jpeg', '', b''), (b'text/plain', '', b'word in text'),
     (b'application/octet-streams', '', b'other'),
     (b'application/image', '', b'image')]


def multipart(parts, boundary):
    out = b'Content-Type: multipart/mixed; boundary=' + boundary + b'\n\n'
    for p in parts:
        out += b'--' + boundary + b'\n' + p + b'\n'
    return out + b'--' + boundary + b'--\n'


def judge_parts(case, rec):
    _, which, shape = case
    chosen = [PARTS[i] for i in which]
    parts = [octets(c, (k, e)) for k, e, c in chosen]
    texts = [p for p, _ in parts]
    if shape == 0:
        raw = multipart(texts, b'BB')
    elif shape == 1:
        raw = multipart(texts[:1] + [multipart(texts[1:], b'CC')], b'BB') \
            if len(texts) > 1 else texts[0]
    else:
        raw = multipart([b'Content-Type: message/rfc822\n\nSubject: in\n' + p
                         for p in texts], b'BB')
    raw = b'Subject: s\nMIME-Version: 1.0\n' + raw
    want = [encode(()), encode(())]
    total = 0
    for (k, e, c), (_, coded) in zip(chosen, parts):
        k = k.lower().split(b';')[0]
        if k == b'application/octet-stream':
            want[0] += Counter([b'octet:' + c[:5]])
            want[1] += Counter([b'octet:' + coded.rstrip(b'\n')[:5]])
        elif k.startswith(b'image/'):
            total += len(c)
    check(raw, OCTETS, want[0], rec, want)
    size = encode('image-size:2**%d' % round(math.log2(n))
                  for n in (total,) if n)
    check(raw, IMAGES, size, rec)


def judge_size(case, rec):
    _, n, way = case
    data = b'x' * n
    if way == 'plain':
        raw = octets(data, (b'image/png', ''))[0]
    elif way == 'base64':
        raw = octets(data, (b'image/x', 'base64'))[0]
    elif way == 'two':
        raw = multipart([octets(data[:n // 3], (b'image/x', 'base64'))[0],
                         octets(data[n // 3:], (b'image/y', 'base64'))[0]],
                        b'BB')
    else:
        raw = multipart([multipart([octets(data, (b'image/x', 'base64'))[0]],
                                   b'CC')], b'BB')
    want = encode('image-size:2**%d' % round(math.log2(k)) for k in (n,) if k)
    check(b'MIME-Version: 1.0\n' + raw, IMAGES, want, rec)


def networks(tag, ip):
    q = ip.split('.')
    for k in range(1, 5):
        yield '%s:%s/%d' % (tag, '.'.join(q[:k] + ['0'] * (4 - k)), 8 * k)


def is_address(s):
    q = s.split('.')
    return len(q) == 4 and all(x.isdigit() and int(x) < 256 for x in q)


def reverse(address):
    for name, addresses in tok.Resolver.names.items():
        if address in addresses:
            return name


def judge_nntp(case, rec):
    _, hosts, name = case
    tok.Resolver.install()
    raw = b''.join(name.encode() + b': ' + h.encode() + b'\n' for h in hosts)
    raw += b'Subject: s\n\n'
    want = []
    for h in hosts if name.lower() == 'nntp-posting-host' else ():
        h = h.strip()
        if is_address(h):
            want += networks('nntp-host', h)
            n = reverse(h)
            if n:
                want += ['nntp-host-ip:has-reverse',
                         'nntp-host-name:' + n,
                         'nntp-host-domain:' + '.'.join(n.split('.')[-2:])]
        else:
            want += ['nntp-host-name:' + h,
                     'nntp-host-domain:' + '.'.join(h.split('.')[-2:])]
            ips = tok.Resolver.names.get(h, ())
            for ip in ips:
                want += networks('nntp-host-ip', ip)
            if ips and reverse(ips[0]) == h:
                want.append('nntp-host-ip:has-reverse')
    check(raw, NNTP, encode(want), rec)


def judge_habeas(case, rec):
    raw, each = b'', []
    for i, state in enumerate(case[1]):
        if state:
            name = 'X-Habeas-SWE-%d' % (i + 1)
            text = HABEAS_TEXT[i] + ('' if state == 1 else '!')
            raw += ('%s: %s\n' % (name, text)).encode()
            each.append(name.lower() + (':valid' if state == 1 else
                                        ':invalid'))
    raw += b'Subject: s\n\n'
    one = []
    if 2 in case[1]:
        one = ['x-habeas-swe:invalid']
    elif all(s == 1 for s in case[1]):
        one = ['x-habeas-swe:valid']
    check(raw, HABEAS, encode(each), rec)
    check(raw, (HABEAS, REDUCE), encode(one), rec)
    check(raw, REDUCE, Counter(), rec)


def judge_text(case, rec):
    head = b'Subject: s\n\nx '
    lower = case[1].lower()
    replaced = b''.join(bytes((c,)) if 32 <= c < 127 or c in b' \t\r\n'
                        else b'?' for c in lower)
    rec.step(2)
    found = counted(head + case[1], (QUESTION,))
    want = counted(head + replaced, ())
    need(found == want, '{!r}: with replacement {!r}, expected {!r}',
         case[1], sorted(found.elements()), sorted(want.elements()))
    plain = counted(head + case[1], ())
    need(plain == counted(head + lower, ()),
         '{!r}: tokens differ from those in lower case', case[1])
    if replaced == lower:
        need(found == plain, '{!r}: replacement changes plain text', case[1])
    rec.state(tuple(sorted(found)))


def judge_url(case, rec):
    url = case[1]
    raw = b'Subject: s\n\nsee ' + url.encode() + b' there'
    plain = counted(raw, ())
    found = counted(raw, (APART,))
    proto, guts = url.split('://')
    want = ['proto:' + proto]
    escapes = []
    i = 0
    # the stripper sees the address without punctuation that follows it or
    # with it: an escape is complete in either case
    while i < len(url):
        if url[i] == '%' and i + 3 <= len(url):
            escapes.append(url[i:i + 3])
            i += 3
        else:
            i += 1
    if escapes:
        want.append('url:%%%d' % two(len(escapes)))
        want += ['url:' + e for e in escapes]
    clear = urllib.parse.unquote(guts)
    site = clear
    for c in '/?#':
        site = site.split(c)[0]
    if '@' in site:
        want.append('url:has user')
    host = site.split('@')[-1]
    host, _, port = host.partition(':')
    if port and (proto, port) not in (('http', '80'), ('https', '443')) and \
            proto != 'ftp':
        want.append('url:non-standard %s port' % proto)
    if is_address(host):
        want.append('url:ip addr')
    want = [w.encode('utf-8', 'replace') for w in want]
    rest = clear.rstrip('.:?!/')
    for c in ';?:@&=+,$.':
        rest = rest.replace(c, '/')
    want += [('url:' + x).encode('utf-8', 'replace')
             for x in rest.split('/')]
    base = counted(b'Subject: s\n\nsee  there', ())
    got = found - base
    need(not base - found, '{}: the text around is lost', url)
    drop = {b'url:'}
    got = Counter({k: v for k, v in got.items() if k not in drop})
    want = Counter(w for w in want if w not in drop)
    need(got == want, '{}: clues {!r}, expected {!r}', url,
         sorted(got.elements()), sorted(want.elements()))
    need(plain[b'proto:' + proto.encode()] == 1, '{}: no protocol', url)
    # with the addresses of the host
    extra = ['url-ip:lookup error']
    if 'h.com' in host:
        extra = [net for a in ADDRESSES for net in networks('url-ip', a)]
    got = counted(b'Subject: s\n\nsee ' + url.encode() + b' there',
                  (APART, LOOKUP)) - found
    need(got == encode(extra), '{}: clues of the lookup {!r}, expected {!r}',
         url, sorted(got.elements()), extra)
    need(counted(raw, (LOOKUP,)) == plain, '{}: clues without option', url)
    rec.step(4)
    rec.state(tuple(sorted(got)))


def judge_html(case, rec):
    raw = ''.join(case[1])
    text = raw.lower()
    word = lambda i: 0 <= i < len(text) and (text[i].isalnum() or
                                             text[i] == '_')
    want = []
    i = 0
    while i < len(text):
        j = None
        if text[i] == '<':
            k = i + 1
            if text[k:k + 1] == '/':
                k += 1
            while text[k:k + 1].isspace():
                k += 1
            for name in 'script', 'iframe':
                if text.startswith(name, k) and not word(k + 6):
                    j = k + 6
        elif not word(i - 1):
            for name, ends in (('src=', ('cid:',)), ('height=', '0'),
                               ('width=', '0')):
                for quote in ('', '"', "'"):
                    for end in ends:
                        if text.startswith(name + quote + end, i):
                            j = i + len(name + quote + end)
        if j is None:
            i += 1
        else:
            want.append('virus:' + text[i:j])
            i = j
    for kind in b'', b'Content-Type: text/html\n':
        found = counted(b'Subject: s\n' + kind + b'\n' + raw.encode(), ())
        got = Counter({k: v for k, v in found.items()
                       if k.startswith(b'virus:')})
        need(got == encode(want), '{!r}: {!r}, expected {!r}', raw,
             sorted(got.elements()), want)
        rec.step()
    rec.state(tuple(want))
