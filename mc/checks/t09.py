"""T09: optional header analyses report exactly what the headers say."""
import itertools
import math
from collections import Counter

from mc import tok
from mc.checks import t07
from mc.core import need

PROPERTY = 'T09'
LEVEL = 'exploration'
RULE = ('(a) every Received header made of a host out of 15, an address out '
        'of 13, a remark out of 8 and two layouts of white space, alone and '
        'in every pair out of 24 (thorough: triple); (b) every sequence of '
        'up to three (thorough: four) header names out of 30; (c) every '
        'list of up to three (thorough: four) recipients out of 14 in To and '
        'Cc, and every shared length up to 14 x number of recipients up to '
        '45; (d) every header name x text of up to three (thorough: four) '
        'pieces, and every three headers; (e) every choice of up to five '
        'names as the user\'s list of counted, address or skipped headers x '
        'up to three headers out of eight. Each with the option alone and '
        'with the others; the additional tokens are compared. Non-trivial: '
        'some option adds a token.')
ASSUMPTIONS = ['hosts end in a letter or are no host names; addresses have '
               'four numbers', 'header names beginning with the name of a '
               'skipped header are not used']

OPTIONS = ('MINE_RECEIVED_HEADERS', 'COUNT_ALL_HEADER_LINES',
           'RECORD_HEADER_ABSENCE', 'SUMMARIZE_EMAIL_PREFIXES',
           'SUMMARIZE_EMAIL_SUFFIXES')
MINE, COUNT, ABSENT, PREFIX, SUFFIX = OPTIONS

HOSTS = ['', 'mail.example.com', 'MAIL.Example.COM', 'host', 'a-b_c.d-e',
         'v.w.x.y.z', '1.2.3.4', 'h1.2x', 'mx0.h5-9.c3d4e6f78.org', 'host9',
         'a.b9c', 'localhost',
         '9x', '-a.b', 'x' * 30 + '.org']
IPS = ['', '10.1.2.3', '255.255.255.255', '0.0.0.0', '192.168.100.1',
       '1.22.333.4', '9.8.7.6']
REMARKS = ['', '(may be forged)', '(May Be  Forged)', '(no helo)', '(x)', '(forged)',
           '(two words here)', '(bad 1)', '(helo a b)',
           '(may be forged) by q (Not  Verified) (no helo) (x) (no helo)']
LAYOUTS = ['from {host} ({ip}) by z.example.net {remark}; Mon, 1 Jan',
           'From\n\t{host}\n {ip}  {remark} by\tz.example.net with SMTP',
           '{remark} {ip} from {host} x']
NAMES = t07.MORE + ['List-Id', 'X-Y']
ADDRESSES = ['ann@example.com', 'Ann.lee@example.com', 'anna@Example.com',
             'bob@example.com', 'ann@other.org', 'z@y', 'ann', 'ANN@x.com',
             'annab@example.com', 'q' * 25 + '@example.com', 'a@b', 'a@bb',
             'annabel.lee@annabel.example.com', 'BOB@EXAMPLE.COM']
WORDS = ['Buy', 'to', ' ', '!', 'now.', '50%', 'x' * 14, '-', 'a_b', '$1.00',
         ',', '"']
BASIC = ['Subject', 'To', 'List-Id', 'received', 'Received', 'Date', 'X-Y',
         'DATE', 'x-', 'From', 'Content-Language', 'Comments', 'Lx-a']

# lists of headers set by the user, and headers to try them on
LISTED = ('x-one', 'list-id', 'to', 'received', 'none-such')
TRIED = ('X-One', 'x-one', 'List-Id', 'To', 'TO', 'Subject', 'RECEIVED',
         'Other')


def units(tier, seed):
    t = tier == 'thorough'
    result = [('received', i, j) for i in range(len(HOSTS))
              for j in range(len(IPS))]
    result += [('many', i, t) for i in range(24)]
    result += [('names', i, j, 4 if t else 3) for i in range(len(NAMES))
               for j in range(len(NAMES))]
    result += [('to', i, j, 4 if t else 3) for i in range(len(ADDRESSES))
               for j in range(len(ADDRESSES))]
    result += [('shared', n, t) for n in range(15)]
    result += [('lists', i, 4 if t else 3) for i in range(len(TRIED))]
    result += [('basic', i, 4 if t else 3) for i in range(len(BASIC))]
    return result


def received(n):
    """Data of the n-th sample."""
    return (HOSTS[n * 7 % len(HOSTS)], IPS[n % len(IPS)],
            '[' if n % 2 else '(', REMARKS[n // 2 % len(REMARKS)],
            n % len(LAYOUTS))


def explore(unit, rec):
    kind = unit[0]
    if kind == 'received':
        _, i, j = unit
        for bracket in '[', '(', '':
            for remark in REMARKS:
                for layout in range(len(LAYOUTS)):
                    data = HOSTS[i], IPS[j], bracket, remark, layout
                    rec.run(('received', (data,)))
    elif kind == 'many':
        first = received(unit[1])
        for k in range(3, 13):
            rec.run(('received', tuple(received(unit[1] + m)
                                       for m in range(k))))
        for k in range(24):
            rec.run(('received', (first, received(k))))
            if unit[2]:
                for m in range(24):
                    rec.run(('received', (first, received(k), received(m))))
    elif kind == 'names':
        _, i, j, n = unit
        if i == 0:
            rec.run(('names', (NAMES[j],)))
            if j == 0:
                rec.run(('names', ()))
        for k in range(n - 1):
            for rest in itertools.product(NAMES if k < n - 2 else NAMES[::6],
                                          repeat=k):
                rec.run(('names', (NAMES[i], NAMES[j]) + rest))
        if i == j:
            for k in range(0, len(t07.SAFE) + 1):
                rec.run(('names', t07.SAFE[:k] + (NAMES[i],)))
                rec.run(('names', t07.SAFE[k:] + (NAMES[i],)))
    elif kind == 'to':
        _, i, j, n = unit
        for k in range(n - 1):
            for rest in itertools.product(ADDRESSES, repeat=k):
                a = (ADDRESSES[i], ADDRESSES[j]) + rest
                for cut in range(len(a) + 1):
                    rec.run(('to', a[:cut], a[cut:]))
                # each in a line of its own
                rec.run(('lines', a[:1], a[1:]))
                rec.run(('lines', a[:-1], a[-1:]))
        rec.run(('to', (ADDRESSES[i],), ()))
    elif kind == 'shared':
        _, n, t = unit
        shared = 'abcdefghijklmno'[:n]
        for count in range(1, 46) if t else [*range(1, 11), 13, 14, 20, 25,
                                             30, 40, 45]:
            for odd in 0, 1:
                # the last one differs from the others after the shared part
                start = [shared + '1' + '@h'] * (count - 1) + \
                    [shared + '2' * (1 + odd) + '@h']
                end = ['1' + shared] * (count - 1) + \
                    ['2' * (1 + odd) + shared]
                for a in start, end, [shared or '_'] * count:
                    a = tuple(a)
                    rec.run(('to', a, ()))
                    rec.run(('to', (), a))
                    rec.run(('to', a[:count // 2], a[count // 2:]))
    elif kind == 'lists':
        _, i, n = unit
        for k in range(n):
            for rest in itertools.product(TRIED, repeat=k):
                for m in range(len(LISTED) + 1):
                    for some in itertools.combinations(LISTED, m):
                        rec.run(('lists', (TRIED[i],) + rest, some))
                        if k == 0 and i == 0:
                            rec.run(('lists', (), some))
    else:
        _, i, n = unit
        for k in range(n + 1):
            for words in itertools.product(WORDS if k < n else WORDS[::2],
                                           repeat=k):
                rec.run(('basic', ((BASIC[i], ''.join(words)),)))
        for j in BASIC:
            for m in BASIC:
                rec.run(('basic', ((BASIC[i], 'one two'), (j, 'two three'),
                                   (m, 'more'))))


def counted(raw, options, *args):
    t = tok.configure(options)
    return Counter(t.tokenize(tok.message(raw), *args))


def check(raw, expected, rec):
    """expected: option -> additional tokens"""
    plain = counted(raw, ())
    for option in expected:
        compare(raw, plain, counted(raw, (option,)), expected[option], option)
    total = Counter()
    for option in OPTIONS:
        if option not in expected:
            extra = counted(raw, (option,)) - plain
        else:
            extra = expected[option]
        total += extra
    compare(raw, plain, counted(raw, OPTIONS), total, 'all options')
    rec.step(2 + len(expected))
    rec.state(tuple(sorted(total)))


def compare(raw, plain, found, extra, what):
    lost = plain - found
    need(not lost, '{}: tokens lost by {}: {!r}', raw, what, sorted(lost))
    got = found - plain
    need(got == extra, '{!r}, {}: additional tokens {!r}, expected {!r}', raw,
         what, sorted(got.elements()), sorted(extra.elements()))


def encode(tokens):
    return Counter(t.encode() for t in tokens)


def judge(case, rec):
    kind = case[0]
    if kind == 'received':
        raw, want = b'', []
        for data in case[1]:
            host, ip, bracket, remark, layout = data
            close = {'[': ']', '(': ')', '': ''}[bracket]
            address = bracket + ip + close if ip else ''
            value = LAYOUTS[layout].format(host=host, ip=address,
                                           remark=remark)
            if not host:
                # or the next word is the host
                value = value.replace('From\n\t', '')
            raw += b'Received: ' + value.encode() + b'\n'
            want += mined(host, ip if bracket or layout == 0 else '', remark,
                          layout)
        check(raw + b'Subject: x\n\n', {MINE: encode(want)}, rec)
    elif kind == 'names':
        raw = b''.join(n.encode() + b': x@y\n' for n in case[1]) + b'\n'
        lower = [n.lower() for n in case[1]]
        count = Counter(n for n in case[1] if n.lower() not in t07.SAFE)
        check(raw, {COUNT: encode('header:%s:%d' % x for x in count.items()),
                    ABSENT: encode('noheader:' + n for n in t07.SAFE
                                   if n not in lower)}, rec)
    elif kind in ('to', 'lines'):
        raw = b''
        for name, some in (b'To', case[1]), (b'CC', case[2]):
            if kind == 'lines':
                for a in some:
                    raw += name + b': ' + a.encode() + b'\n'
            elif some:
                raw += name + b': ' + ', '.join(some).encode() + b'\n'
        every = [a.lower() for a in case[1] + case[2]]
        n = len(every)
        expected = {PREFIX: [], SUFFIX: []}
        for option, name, big, addresses in (
                (PREFIX, 'pfxlen', 3, every),
                (SUFFIX, 'sfxlen', 5, [a[::-1] for a in every])):
            if n > 1:
                length = 0
                while all(a[:length + 1] == addresses[0][:length + 1] and
                          len(a) > length for a in addresses):
                    length += 1
                if length:
                    score = length * n // 10
                    expected[option].append('%s:%s' % (
                        name, score if score <= big else 'big'))
            expected[option] = encode(expected[option])
        check(raw + b'\n', expected, rec)
    elif kind == 'lists':
        lists(case[1], case[2], rec)
    else:
        basic(case[1], rec)


def lists(names, some, rec):
    raw = b''.join(n.encode() + b': ann@h.org\n' for n in names) + b'\n'
    lower = [n.lower() for n in names]
    t = tok.configure(())
    saved = {}

    def found(option, prefixes, *args):
        saved[option] = getattr(t, option)
        try:
            setattr(t, option, some)
            tokens = t.Tokenizer()(tok.message(raw), *args)
            return Counter(x for x in tokens if x.startswith(prefixes))
        finally:
            setattr(t, option, saved[option])

    def need_tokens(got, want, what):
        need(got == encode(want), '{!r}, {} {}: {!r}, expected {!r}', raw,
             what, some, sorted(got.elements()), want)
        rec.step()

    want = ['header:%s:%d' % (n, names.count(n)) for n in set(names)
            if n.lower() in some]
    need_tokens(found('SAFE_HEADERS', (b'header:', b'noheader:')), want,
                'SAFE_HEADERS')
    t = tok.configure((ABSENT,))
    need_tokens(found('SAFE_HEADERS', (b'header:', b'noheader:')),
                want + ['noheader:' + n for n in some if n not in lower],
                'SAFE_HEADERS, with absent ones')
    t = tok.configure(())
    want = []
    for n in some:
        k = lower.count(n)
        want += [n + ':none'] if not k else \
            [n + ':addr:ann', n + ':addr:h.org'] * k + \
            ['%s:no real name:2**%d' % (n, round(math.log2(k)))]
    need_tokens(found('ADDRESS_HEADERS', tuple(
        n.encode() + x for n in LISTED for x in (b':addr:', b':no'))), want,
        'ADDRESS_HEADERS')
    want = [n + ':' + w for n in lower if n not in some
            for w in ('ann', 'h.org')]
    need_tokens(found('BASIC_HEADER_SKIP', tuple(
        n.lower().encode() + b':' for n in TRIED), True, True), want,
        'BASIC_HEADER_SKIP')
    rec.state((names, some))


def mined(host, ip, remark, layout):
    for part in remark.lower().split('(')[1:]:
        inner = part.partition(')')[0].split()
        if len(inner) > 1 and all(w.isalpha() for w in inner):
            yield 'received:(' + ' '.join(inner) + ')'
    host = host.lower()
    if host and host[-1].isalpha() and len(host) > 1:
        labels = host.split('.')
        for i in range(len(labels)):
            yield 'received:' + '.'.join(labels[i:])
    if ip:
        quad = ip.split('.')
        for i in range(4):
            yield 'received:' + '.'.join(quad[:i + 1])


def basic(headers, rec):
    raw = ''.join('%s: %s\n' % h for h in headers).encode() + b'\n'
    plain = counted(raw, ())
    words = []
    for name, value in headers:
        name = name.lower()
        if name in ('received', 'date') or name.startswith('x-'):
            continue
        for word in t07.runs(value, lambda c: c.isalnum() or c in '_$.%'):
            words += [name + ':' + x for x in t07.word_tokens(word)]
    words = encode(words)
    compare(raw, plain, counted(raw, (), True), words,
            'basic header tokenization')
    # nothing but the words and the layout of the message
    layout = Counter(x for x in plain.elements()
                     if x.startswith(b'content-'))
    compare(raw, layout, counted(raw, (), True, True), words,
            'only basic header tokenization')
    need(counted(raw, (), False, True) == plain and
         counted(raw, (), False, False) == plain,
         '{!r}: basic header tokenization although it is off', raw)
    rec.step(5)
    rec.state(tuple(sorted(words)))
