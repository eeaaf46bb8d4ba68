"""T07: header clues follow the message's headers exactly."""
import base64
import itertools
from collections import Counter

from mc import core, tok
from mc.core import need

PROPERTY = 'T07'
LEVEL = 'exploration'
RULE = ('every Subject of up to three (thorough: four) pieces out of 20 in '
        'every choice of charsets; every list of up to three (thorough: '
        'four) addresses in nine forms for each address header, in one or '
        'two lines, and every number of recipients up to 300; every content '
        'type x parameters x disposition x file name of up to three '
        '(thorough: four) pieces; every Message-Id of up to six (thorough: '
        'seven) pieces; every X-Mailer of up to four; every sequence of up '
        'to four (thorough: five) header names in several spellings; every '
        'tree of up to three parts; every combination of one value per '
        'header out of two to four. All tokens of the message are compared. '
        'Non-trivial: some header.')
ASSUMPTIONS = ['8-bit characters are only used undeclared in Subject, '
               'and there not beside encoded words',
               'for an address header with a comma inside a name, both ways '
               'of counting are accepted', 'white space around decoded names '
               'is not compared']

SAFE = ('abuse-reports-to', 'date', 'errors-to', 'from', 'importance',
        'in-reply-to', 'message-id', 'mime-version', 'organization',
        'received', 'reply-to', 'return-path', 'subject', 'to', 'user-agent',
        'x-abuse-info', 'x-complaints-to', 'x-face')
ADDRESS = ('from', 'to', 'cc', 'sender', 'reply-to')

PIECES = ['Buy', 'abc', 'FREE', 'to', ' ', '  ', '!', '?!', '$9.95', '50%',
          '-', '_x_', 'a' * 12, 'B' * 13, '(', 'c' * 30, 'caf\xe9', '...',
          '\xe9' * 3 + 'd' * 14, '\xa3x\xbb']
FEW = ['Buy', 'a', ' ', '!', '\xe9', 'B' * 13]
CHARSETS = ['', 'utf-8', 'iso-8859-1', 'none-such']

ADDRESSES = [('bare', '', 'Ann@Example.com'), ('bare', '', 'b@c.d'),
             ('angle', 'Ann Lee', 'ann@example.com'), ('angle', '', 'e@f.g'),
             ('quoted', 'Lee, Ann', 'x@y.z'), ('comment', 'Bob B', 'bob@h.i'),
             ('encoded', 'caf\xe9 X', 'J@k.l'), ('quoted', 'NAME.', 'm@n'),
             ('two', 'caf\xe9', 'o@p.q'), ('angle', 'Q', '"r@S"@t.u'), ('bare', '', 'local')]

TYPES = [None, 'text/plain', 'TEXT/Html', 'application/X-foo', 'bogus',
         'multipart/mixed', 'image/png', 'text/x; ']
PARAMS = [(), (('charset', 'UTF-8', ''),), (('charset', 'us-ascii', '"'),),
          (('charset', 'Koi8-R', '*'),), (('type', 'Text/HTML', '"'),),
          (('name', 'a.b', '"'),), (('charset', 'utf-8', ''),
                                    ('type', 'x/Y', '')),
          (('format', 'flowed', ''), ('charset', 'big5', '"')),
          (('name', 'n/m', '*'),)]
FILE = ['a', 'Bc', '/', '\\', ':', '.', ';', '$', '=', ' ', 'exe', '@', ',',
        '?', '&', '+', '\xe9', '-']
IDS = ['<', '>', '@', 'a', 'host.x', ' ', 'Z']
MAILER = ['Some', 'Mailer', ' ', '  ', '\t', '1.0', 'X', '(a/b)']
NAMES = ['From', 'FROM', 'Received', 'X-Foo', 'subject', 'Subject', 'To',
         'Date', 'X-Face', 'x-faces', 'Organization', 'received']
MORE = NAMES + ['MIME-Version', 'Return-Path', 'User-Agent', 'x-abuse-info',
                'X-Complaints-To', 'Abuse-Reports-To', 'Errors-To',
                'Importance', 'In-Reply-To', 'Reply-To', 'Message-Id', 'Cc',
                'Sender', 'X-Mailer', 'Bcc', 'dates', 'x-face2', 'SUBJECT']

SAMPLES = {
    'subject': [None, (('Buy NOW!! only $5.00', ''),),
                (('caf\xe9 d\xe9j\xe0', 'utf-8'), ('vu', 'iso-8859-1'))],
    'from': [None, ADDRESSES[0:1], ADDRESSES[6:7]],
    'to': [None, ADDRESSES[1:4], ADDRESSES[5:9]],
    'cc': [None, ADDRESSES[2:3]],
    'sender': [None, ADDRESSES[8:9]],
    'reply-to': [None, ADDRESSES[3:4]],
    'content-type': [None, ('TEXT/Html', PARAMS[1]), ('bogus', PARAMS[5])],
    'content-disposition': [None, ('a/b.c;d', '"')],
    'message-id': [None, '<a@B.c>', 'none'],
    'x-mailer': [None, 'My  MAILER\t2'],
    'date': [None, 'x'],
    'x-other': [None, 'a b c'],
}


def units(tier, seed):
    t = tier == 'thorough'
    n = 4 if t else 3
    result = [('subject', i, j, n) for i in range(len(PIECES))
              for j in range(len(PIECES))]
    result += [('chunks', i, j, n) for i in range(len(FEW))
               for j in range(len(CHARSETS))]
    result += [('address', f, i, n) for f in ADDRESS
               for i in range(len(ADDRESSES))]
    result += [('count', f) for f in ADDRESS]
    result += [('type', i, j) for i in range(len(TYPES))
               for j in range(len(PARAMS))]
    result += [('file', i, j, n) for i in range(len(FILE))
               for j in range(len(FILE))]
    result += [('id', i, j, 7 if t else 5) for i in range(len(IDS))
               for j in range(len(IDS))]
    result += [('mailer', i) for i in range(len(MAILER))]
    result += [('names', i, j, 5 if t else 4) for i in range(len(NAMES))
               for j in range(len(NAMES))]
    result += [('spelling', i) for i in range(len(MORE))]
    result += [('tree', i, t) for i in range(len(LEAVES))]
    result += [('all', i, j) for i in range(3) for j in range(9)]
    return result


def explore(unit, rec):
    kind = unit[0]
    if kind == 'subject':
        _, i, j, n = unit
        a, b = PIECES[i], PIECES[j]
        if i == 0:
            rec.run(('m', [('Subject', 'subject', [(b, '')])]))
        for k in range(n - 1):
            for rest in itertools.product(PIECES, repeat=k):
                text = a + b + ''.join(rest)
                rec.run(('m', [('Subject', 'subject', [(text, '')])]))
                if k < 2:
                    for charset in CHARSETS[1:]:
                        rec.run(('m', [('Subject', 'subject',
                                        [(text, charset)])]))
    elif kind == 'chunks':
        _, i, j, n = unit
        first = FEW[i], CHARSETS[j]
        chunks = list(itertools.product(FEW, CHARSETS))
        for k in range(n):
            for rest in itertools.product(chunks if k < 3 else chunks[::3],
                                          repeat=k):
                rec.run(('m', [('SUBJECT', 'subject', (first,) + rest)]))
        rec.run(('m', [('subject', 'subject', (first,)),
                       ('Subject', 'subject', (('second one', ''),))]))
    elif kind == 'address':
        _, f, i, n = unit
        first = ADDRESSES[i]
        for k in range(n):
            few = ADDRESSES if k < 3 else ADDRESSES[::2]
            for rest in itertools.product(few, repeat=k):
                rec.run(('m', [(f, 'address', (first,) + rest)]))
                if k == 1:
                    rec.run(('m', [(f.title(), 'address', (first,)),
                                   ('X-Y', 'other', 'z'),
                                   (f.upper(), 'address', rest)]))
    elif kind == 'count':
        f = unit[1]
        a = ('bare', '', 'a@b')
        b = ('angle', 'N', 'a@b')
        for n in range(1, 301):
            rec.run(('m', [(f, 'address', (a,) * n)]))
            if n < 40:
                for k in range(n):
                    rec.run(('m', [(f, 'address', (a,) * k),
                                   (f, 'address', (b,) * (n - k))][not k:]))
    elif kind == 'type':
        _, i, j = unit
        for d in None, ('x.y', ''), ('q/r', '"'), ('s t', '*'), (None, ''):
            headers = [('Content-Disposition', 'disposition', d)] if d else []
            value = TYPES[i], PARAMS[j]
            if TYPES[i] is None and j:
                continue
            ct = [('Content-Type', 'type', value)] if TYPES[i] else []
            rec.run(('m', ct + headers))
            rec.run(('m', headers + ct))
    elif kind == 'file':
        _, i, j, n = unit
        for k in range(n - 1):
            for rest in itertools.product(FILE if k < 2 else FILE[::2],
                                          repeat=k):
                name = FILE[i] + FILE[j] + ''.join(rest)
                for form in ('"', '*') if k < 2 else ('*',):
                    rec.run(('m', [('Content-Disposition', 'disposition',
                                    (name, form))]))
                if k < 2:
                    rec.run(('m', [('Content-Type', 'type', (
                        'application/zip', (('name', name, '"'),)))]))
    elif kind == 'id':
        _, i, j, n = unit
        for k in range(n - 1):
            for rest in itertools.product(IDS, repeat=k):
                value = IDS[i] + IDS[j] + ''.join(rest)
                rec.run(('m', [('Message-ID', 'id', value)]))
                if k < 3:
                    for white in '\t', '\n ', '\n\t ':
                        rec.run(('m', [('Message-ID', 'id',
                                        white + value)]))
    elif kind == 'mailer':
        for k in range(4):
            for rest in itertools.product(MAILER, repeat=k):
                value = MAILER[unit[1]] + ''.join(rest)
                rec.run(('m', [('X-Mailer', 'mailer', value)]))
        rec.run(('m', [('X-Mailer', 'mailer', 'one'),
                       ('x-mailer', 'mailer', 'two')]))
    elif kind == 'names':
        _, i, j, n = unit
        for k in range(n - 1):
            for rest in itertools.product(NAMES, repeat=k):
                rec.run(('m', [named(x) for x in
                               (NAMES[i], NAMES[j]) + rest]))
    elif kind == 'spelling':
        for a in MORE:
            for n in range(4):
                for k in range(3):
                    rec.run(('m', [named(MORE[unit[1]])] * n +
                             [named(a)] * k))
        for n in 9, 10, 11, 12, 64, 100:
            rec.run(('m', [named(MORE[unit[1]])] * n))
    elif kind == 'tree':
        _, i, t = unit
        n = len(LEAVES)
        for c in CONTAINERS:
            rec.run(('tree', c, (i,)))
            for j in range(n):
                rec.run(('tree', c, (i, j)))
                for k in range(n) if t else range(0, n, 3):
                    rec.run(('tree', c, (i, j, k)))
    else:
        _, i, j = unit
        keys = list(SAMPLES)
        kinds = dict(subject='subject', date='other')
        kinds.update((f, 'address') for f in ADDRESS)
        kinds.update({'content-type': 'type', 'message-id': 'id',
                      'content-disposition': 'disposition',
                      'x-mailer': 'mailer', 'x-other': 'other'})
        first = [SAMPLES['subject'][i]], [SAMPLES['from'][j // 3]], \
            [SAMPLES['to'][j % 3]]
        for values in itertools.product(*first, *(SAMPLES[k]
                                                  for k in keys[3:])):
            rec.run(('m', [(k.title(), kinds[k], v)
                           for k, v in zip(keys, values) if v is not None]))


def named(name):
    k = name.lower()
    if k in ADDRESS:
        return name, 'address', (('bare', '', 'u@v.w'),)
    if k == 'subject':
        return name, 'subject', (('hello', ''),)
    if k == 'message-id':
        return name, 'id', '<u@v.w>'
    if k == 'x-mailer':
        return name, 'mailer', 'some'
    return name, 'other', 'x'


CONTAINERS = ['multipart/mixed', 'multipart/Alternative', 'nested']
LEAVES = [
    [], [('Content-Type', 'type', ('text/plain', PARAMS[1]))],
    [('Content-Type', 'type', ('text/html', PARAMS[3]))],
    [('Content-Type', 'type', ('image/png', PARAMS[5])),
     ('Content-Disposition', 'disposition', ('p/q.png', '"'))],
    [('Content-Disposition', 'disposition', ('s t.exe', '*'))],
    [('Content-Type', 'type', ('bogus', PARAMS[4]))],
    'message',
    [('Subject', 'subject', (('inner', ''),)), ('X-Mailer', 'mailer', 'i'),
     ('To', 'address', ADDRESSES[:2])],
]


# ------------------------------------------------------------------ writing
def encoded(text, charset):
    """An RFC 2047 word."""
    codec = 'iso-8859-1' if charset == 'none-such' else charset
    data = text.encode(codec)
    if len(text) % 2:
        return '=?%s?b?%s?=' % (charset, base64.b64encode(data).decode())
    return '=?%s?q?%s?=' % (charset.upper(), ''.join(
        chr(b) if chr(b).isalnum() and b < 128 else '_' if b == 32 else
        '=%02X' % b for b in data))


def write_address(a):
    form, name, addr = a
    if form == 'bare':
        return addr
    if form == 'angle':
        return '%s <%s>' % (name, addr) if name else '<%s>' % addr
    if form == 'quoted':
        return '"%s" <%s>' % (name, addr)
    if form == 'comment':
        return '%s (%s)' % (addr, name)
    if form == 'two':
        return '%s %s <%s>' % (encoded(name, 'utf-8'),
                               encoded(name + '2', 'iso-8859-1'), addr)
    return '%s <%s>' % (encoded(name, 'utf-8'), addr)


def write_param(key, value, form):
    if form == '*':
        return "%s*=utf-8''%s" % (key, ''.join(
            chr(b) if chr(b).isalnum() and b < 128 else '%%%02X' % b
            for b in value.encode()))
    if form == '"':
        return '%s="%s"' % (key, value.replace('\\', '\\\\'))
    return '%s=%s' % (key, value)


def write(kind, data):
    if kind == 'subject':
        return ' '.join(encoded(*c) if c[1] else c[0] for c in data)
    if kind == 'address':
        return ', '.join(map(write_address, data))
    if kind == 'type':
        return '; '.join([data[0]] + [write_param(*p) for p in data[1]])
    if kind == 'disposition':
        return 'Attachment' if data[0] is None else \
            'Attachment; ' + write_param('filename', *data)
    return data


def lines(headers):
    return ''.join('%s: %s\n' % (name, write(kind, data))
                   for name, kind, data in headers).encode('latin-1')


# ----------------------------------------------------------------- expected
def word_tokens(word):
    n = len(word)
    if n < 3:
        return []
    if n <= 12:
        return [word]
    result = ['skip:%s %d' % (word[0], n - n % 10)]
    high = sum(c > '\x7f' for c in word)
    if high:
        result.append('8bit%%:%d' % round(100 * high / n))
    return result


def runs(text, good):
    result, run = [], ''
    for c in text:
        if good(c):
            run += c
        elif run:
            result.append(run)
            run = ''
    return result + [run] if run else result


def subject(data):
    # what the chunks are after decoding
    parts = []
    for i, (text, charset) in enumerate(data):
        if i:
            parts.append((' ', ''))
        parts.append((text, charset))
    chunks = []
    for charset, group in itertools.groupby(parts, lambda p: p[1]):
        chunks.append((''.join(p[0] for p in group), charset))
    if not chunks[0][1]:
        chunks[0] = chunks[0][0].lstrip(' '), ''
    chunks = [c for i, c in enumerate(chunks) if c[0] and (
        c[1] or c[0].strip() or not 0 < i < len(chunks) - 1)]
    chunks = [(''.join(p[0] for p in group), charset) for charset, group in
              itertools.groupby(chunks, lambda p: p[1])]
    for text, charset in chunks:
        if charset:
            yield 'subjectcharset:' + charset
        elif any(c > '\x7f' for c in text) and len(chunks) == 1:
            yield 'subjectcharset:unknown-8bit'
        for word in runs(text, lambda c: c.isalnum() or c in '_$.%' or
                         '\x80' <= c <= '\xff'):
            for x in word_tokens(word):
                yield 'subject:' + x
        for x in runs(text, lambda c: not c.isalnum() and c != '_'):
            yield 'subject:' + x


def power(n):
    """The exponent of the power of two nearest to n, on a logarithmic
    scale."""
    k = n.bit_length() - 1
    # is n above sqrt(2) * 2**k?
    return k + (n * n > 2 * 4 ** k)


def address(field, headers):
    entries = [a for h in headers for a in h]
    if not entries:
        yield field + ':none'
        return
    without = 0
    for form, name, addr in entries:
        if not name:
            without += 1
        else:
            yield '%s:name:%s' % (field, name.lower())
            if form == 'two':
                yield '%s:name:%s' % (field, name.lower() + '2')
                yield field + ':charset:iso-8859-1'
            if form in ('two', 'encoded'):
                yield field + ':charset:utf-8'
        for x in addr.lower().split('@'):
            yield '%s:addr:%s' % (field, x)
    if without:
        yield '%s:no real name:2**%d' % (field, power(without))


def file_name(name):
    yield 'fname:' + name
    parts = runs_between(name, '/\\:')
    for part in parts:
        if len(parts) > 1:
            yield 'fname comp:' + part
        pieces = runs_between(part, ';?:@&=+,$.')
        if len(pieces) > 1:
            for x in pieces:
                yield 'fname piece:' + x


def runs_between(text, separators):
    result = ['']
    for c in text:
        if c in separators:
            result.append('')
        else:
            result[-1] += c
    return result


def mime(headers, default='text/plain'):
    """Tokens of one part."""
    types = [d for _, k, d in headers if k == 'type']
    places = [d for _, k, d in headers if k == 'disposition']
    name = None
    if types:
        main = types[0][0].split(';')[0].strip().lower()
        yield 'content-type:' + (main if main.count('/') == 1
                                 else 'text/plain')
        params = {k: v for k, v, _ in types[0][1]}
        if 'type' in params:
            yield 'content-type/type:' + params['type'].lower()
        if 'charset' in params:
            yield 'charset:' + params['charset'].lower()
        name = params.get('name')
    else:
        yield 'content-type:' + default
    if places:
        yield 'content-disposition:' + write('disposition',
                                             places[0]).lower()
        name = places[0][0] if places[0][0] is not None else name
    if name is not None:
        for x in file_name(name.strip()):
            yield 'filename:' + x


def header_tokens(headers):
    """Alternatives."""
    fields = {}
    for name, kind, data in headers:
        fields.setdefault(name.lower(), []).append(data)
    result = list(subject(fields['subject'][0])) if 'subject' in fields \
        else []
    for f in ADDRESS:
        result += address(f, fields.get(f, []))
    mailer = fields['x-mailer'][0] if 'x-mailer' in fields else 'none'
    result.append('x-mailer:' + ' '.join(mailer.lower().split()))
    count = Counter(n for n, _, _ in headers if n.lower() in SAFE)
    result += ['header:%s:%d' % x for x in count.items()]
    alternatives = [[]]
    for f in 'to', 'cc':
        if f not in fields:
            continue
        n = sum(map(len, fields[f]))
        commas = sum(write('address', h).count(',') + 1 for h in fields[f])
        alternatives = [a + ['%s:2**%d' % (f, power(m))]
                        for a in alternatives for m in {n, commas}]
    ids = ['message-id:invalid']
    if 'message-id' in fields:
        ids = message_id(fields['message-id'][0])
    return [Counter(result + a + [i]) for a in alternatives for i in ids]


def message_id(value):
    value = value.strip()
    local, at, rest = value[1:].partition('@')
    host, end, _ = rest.partition('>')
    if value[:1] == '<' and local and host and end:
        return ['message-id:@' + host]
    return ['message-id:invalid']


# -------------------------------------------------------------------- judge
def judge(case, rec):
    rec.step()
    if case[0] == 'm':
        headers = case[1]
        for _, kind, data in headers:
            if kind == 'disposition' and data[0] is not None or \
                    kind == 'type' and data[1]:
                names = [data] if kind == 'disposition' else \
                    [p[1:] for p in data[1]]
                for value, form in names:
                    if form == '"' and ('\\' == value[-1:] or
                                        not value.isascii()):
                        return      # the email package cannot read it
            if kind == 'subject' and len(data) > 1 and not all(
                    c[1] or c[0].isascii() for c in data):
                return
        raw = lines(headers) + b'\n'
        want = header_tokens(headers)
        for w in want:
            w.update(mime(headers))
    else:
        _, container, leaves = case
        raw, parts = tree(container, leaves)
        want = header_tokens([])
        for w in want:
            for p in parts:
                w.update(mime(p))
    got = Counter(map(normal, tok.tokens(raw)))
    # of a charset it is not said how often it is reported
    for w in [got] + want:
        for k in w:
            if str(k).startswith('charset:'):
                w[k] = 1
    want = [Counter(normal(k) for k in w.elements()) for w in want]
    if got in want:
        rec.state(tuple(sorted(got)))
        return
    w = want[0]
    need(False, 'headers {!r}: missing {!r}, unexpected {!r}', raw,
         sorted((w - got).elements()), sorted((got - w).elements()))


def normal(token):
    if token is None:
        return None
    if isinstance(token, bytes):
        token = token.decode('utf-8', 'surrogateescape')
    head, sep, rest = token.partition(':name:')
    return head + sep + rest.strip() if sep and head in ADDRESS else token


def tree(container, leaves):
    """Raw message and the headers of each part in order."""
    nested = container == 'nested'
    kind = 'multipart/mixed' if nested else container
    parts = [[('Content-Type', 'type', (kind, ()))]]
    raw = b'Content-Type: %s; boundary=B\n\n' % kind.encode()
    for n, i in enumerate(leaves):
        raw += b'--B\n'
        if nested and n == 1:
            # the second leaf is inside another multipart
            parts.append([('Content-Type', 'type', ('multipart/x', ()))])
            raw += b'Content-Type: multipart/x; boundary=CC\n\n--CC\n'
        leaf = LEAVES[i]
        if leaf == 'message':
            parts.append([('Content-Type', 'type', ('message/rfc822', ()))])
            raw += b'Content-Type: message/rfc822\n\n'
            leaf = [('Content-Type', 'type', ('text/x-m', PARAMS[2])),
                    ('Subject', 'subject', (('inside', ''),))]
        parts.append(leaf)
        raw += lines(leaf) + b'\n\n'
        if nested and n == 1:
            raw += b'--CC--\n'
    return raw + b'--B--\n', parts
