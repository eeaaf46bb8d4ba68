"""T05: transfer encoding and MIME layout do not change the words found."""
import base64
import itertools

from mc import core, tok
from mc.core import need, need_equal

PROPERTY = 'T05'
LEVEL = 'exploration'
RULE = ('every text x transfer encoding (several ways of writing each) x '
        'content type x line end as a whole message; and every tree of up '
        'to three (thorough: four) leaves out of 18 kinds in nine shapes '
        '(thorough: 19), with embedded messages, multiparts nested up to 12 '
        'deep and of up to 100 parts, compared with the sequence '
        'of the tokens of the leaves. Non-trivial: some encoding or '
        'multipart.')
ASSUMPTIONS = ['the encodings are valid ones']

TEXTS = [b'hello brave world\n', b'caf\xc3\xa9 d\xe9j\xe0 vu\n',
         b'wo<b>r</b>ds &#119;here http://x.org/path and more\n',
         b'thirteenchars name@example.com\n',
         b'Equal=Sign =20 soft= breaks=\n\nparagraph\n', b'',
         b'no line end', b'long ' * 40 + b'end\n', b'one\n\n\ntwo\n', b'\xff'
         * 15 + b' tail\n', b'<!-- zap\nzip --> shown\n', b'..\n.dots\n',
         b'-- \ndashes first\n', b'--\ndashes only\n', b'>From quoted here\n',
         b'From here onwards\n', b'%PDF-1.4 magic words\n',
         b' \t spaces first\n', b'\n\n\nblank lines first\n',
         b'Content-Type: text/html\n\nlike headers\n',
         b'begin 644 a.txt\nM123\nend\nafter words\n',
         b'=?utf-8?q?abc?= words\n', b'\xef\xbb\xbfmark first\n',
         b'\x00nul bytes\x00here\n', b'tab\tand\x0bvertical\x0cfeed here\n',
         b'UPPER Case WORDS\n', b'R0lGODlhAQABAIAAAP words\n',
         b'<html><head><title>title</title></head>words</html>\n',
         b'{"json": "words"}\n', b'aGVsbG8gd29ybGQ=\n', b'=41=42=43\n']


def b64(width, pad=True, end=b'\n'):
    def encode(text):
        data = base64.b64encode(text)
        lines = [data[i:i + width] for i in range(0, len(data), width)]
        return b''.join(line + b'\n' for line in lines)[:None if end else -1]
    return encode


def qp(every, soft):
    """Encode all bytes or just those that must be; wrap at soft columns."""
    def encode(text):
        lines = []
        for line in text.split(b'\n'):
            out, column = b'', 0
            for i in range(len(line)):
                c = line[i]
                piece = line[i:i + 1]
                if every or c > 126 or c < 32 or c == 61 or (
                        i == len(line) - 1 and piece in b' \t'):
                    piece = b'=%02X' % c if every != 'lower' else \
                        b'=%02x' % c
                if column + len(piece) > soft:
                    out += b'=\n'
                    column = 0
                out += piece
                column += len(piece)
            lines.append(out)
        return b'\n'.join(lines)
    return encode


def plain(text):
    return text


# name: (header value or None, encoder, only 7-bit texts)
ENCODINGS = {
    'none': (None, plain, False), '7bit': (b'7bit', plain, True),
    '8bit': (b'8bit', plain, False), 'binary': (b'binary', plain, False),
    'qp': (b'quoted-printable', qp(False, 75), False),
    'qp short': (b'quoted-printable', qp(False, 9), False),
    'qp all': (b'Quoted-Printable', qp(True, 75), False),
    'qp lower': (b'QUOTED-PRINTABLE', qp('lower', 60), False),
    'base64': (b'base64', b64(76), False), 'b64 4': (b'BASE64', b64(4), False),
    'b64 8': (b'Base64', b64(8), False),
    'b64 one': (b'base64', b64(10000, end=b''), False),
}
TYPES = [None, b'text/plain', b'text/html; charset=utf-8',
         b'text/plain; charset=iso-8859-1', b'text/plain; charset=none',
         b'TEXT/PLAIN; format=flowed', b'text/x-other; name="a.txt"',
         b'text/plain; charset=utf-16',
         b'text/plain\nContent-Disposition: attachment; filename="a.txt"',
         b'text/html\nContent-Disposition: inline',
         b'text/plain; charset=utf-8\nContent-ID: <a@b>\n'
         b'Content-Description: a part\nContent-Language: en',
         b'text/calendar\nContent-Disposition: ATTACHMENT; size=3']

# (type, encoding, text) of the leaves of trees; other types have no words
LEAVES = [
    (b'text/plain', 'none', 0), (b'text/html', 'qp', 2),
    (None, 'none', 3), (b'text/plain; charset=utf-8', 'base64', 1),
    (b'text/plain; charset=iso-8859-1', '8bit', 1),
    (b'text/x-patch', 'qp short', 4), (b'text/plain', 'none', 5),
    (b'text/html', 'b64 4', 10), (b'text/plain; name="f.txt"', 'qp all', 7),
    (b'application/octet-stream', 'base64', 0), (b'image/png', 'none', 0),
    (b'application/x-text', 'qp', 0), (b'audio/text', '8bit', 0),
    (b'Text/HTML', 'b64 one', 6), (b'text/plain', 'none', 0),
    (b'text', 'none', 0),
    (b'text/plain\nContent-Disposition: attachment; filename="a.txt"',
     'base64', 3),
    (b'text/html\nContent-Disposition: inline\nContent-ID: <a@b>', 'qp', 2),
]
# shapes: numbers are leaves, tuples multiparts, lists embedded messages
SHAPES = {
    1: [(0,), ((0,),), ([0],)],
    2: [(0, 1), ((0, 1),), ((0,), 1), (0, (1,)), ([0], 1), (0, [1]),
        ([(0, 1)],), ((0,), (1,)), ([(0,), ], 1)],
    3: [(0, 1, 2), ((0, 1), 2), (0, (1, 2)), (0, [1], 2), ((0, (1, 2)),),
        ([(0, 1)], 2), (((0,), 1), 2), (0, [(1, [2])])],
    4: [(0, 1, 2, 3), ((0, 1), (2, 3)), (0, (1, (2, (3,))))],
}
SUBTYPES = [b'mixed', b'alternative', b'related']


def units(tier, seed):
    t = tier == 'thorough'
    result = [('whole', i) for i in range(len(TEXTS))]
    result += [('deep', i) for i in range(len(LEAVES))]
    for i in range(len(LEAVES)):
        result.append(('tree', 1, (i,), t))
        for j in range(len(LEAVES)):
            result.append(('tree', 2, (i, j), t))
            result.append(('tree', 3, (i, j), t))
            if t:
                result.append(('tree', 4, (i, j), t))
    return result


def explore(unit, rec):
    if unit[0] == 'deep':
        # layers: multiparts with something before or after, or messages
        for n in range(1, 13):
            for layers in ('(' * n, '[' * n, ('([' * n)[:n], '<' * n, '>' * n,
                           ('<>' * n)[:n], ('([>' * n)[:n]):
                rec.run(('deep', layers, unit[1]))
        for n in 5, 20, 100:
            rec.run(('wide', n, unit[1]))
        return
    if unit[0] == 'whole':
        for e in ENCODINGS:
            for k in range(len(TYPES)):
                for eol in (b'\n', b'\r\n'):
                    rec.run(('whole', unit[1], e, k, eol))
        return
    _, n, start, t = unit
    few = range(len(LEAVES)) if n < 4 else range(0, len(LEAVES), 2)
    for rest in itertools.product(few, repeat=max(0, n - len(start))):
        leaves = start + rest
        shapes = SHAPES[n] if t or n < 3 else SHAPES[n][:5]
        for s in range(len(shapes)):
            for sub in SUBTYPES if n < 3 else SUBTYPES[:1]:
                rec.run(('tree', n, s, sub, leaves, b'\n'))
            if n < 3:
                rec.run(('tree', n, s, SUBTYPES[0], leaves, b'\r\n'))


def entity(type, encoding, text):
    value, encode, seven = ENCODINGS[encoding]
    head = b''
    if type is not None:
        head += b'Content-Type: ' + type + b'\n'
    if value is not None:
        head += b'Content-Transfer-Encoding: ' + value + b'\n'
    return head + b'\n' + encode(text)


def is_text(type):
    return type is None or type.lower().startswith(b'text')


def render(shape, leaves, subtype, depth=0):
    """(source, leaves that have words in order)"""
    if isinstance(shape, int):
        type, encoding, text = LEAVES[leaves[shape]]
        return entity(type, encoding, TEXTS[text]), (
            [text] if is_text(type) else [])
    if isinstance(shape, list):
        source, words = render(shape[0], leaves, subtype, depth + 1)
        return b'Content-Type: message/rfc822\n\n' + source, words
    b = b'=_b%d' % depth
    text = b'Content-Type: multipart/' + subtype + b'; boundary="' + b + \
        b'"\n\npreamble words\n'
    words = []
    for s in shape:
        source, more = render(s, leaves, subtype, depth + 1)
        text += b'--' + b + b'\n' + source + b'\n'
        words += more
    return text + b'--' + b + b'--\nepilogue words\n', words


HEAD = b'Subject: s\nMIME-Version: 1.0\n'
BODY = (b'skip:', b'8bit%:', b'email name:', b'email addr:', b'url:',
        b'proto:', b'virus:')


def body(data):
    """The tokens that can only come from a body, in order."""
    return [x for x in tok.tokens(data)
            if b':' not in x or x.startswith(BODY)]


_reference = {}


def reference(i):
    if i not in _reference:
        _reference[i] = body(HEAD + b'\n' + TEXTS[i])
    return _reference[i]


def judge(case, rec):
    rec.step()
    if case[0] == 'whole':
        _, i, e, k, eol = case
        if ENCODINGS[e][2] and max(TEXTS[i], default=0) > 127:
            return
        data = HEAD + entity(TYPES[k], e, TEXTS[i])
        want = reference(i)
        if i == 0:
            need_equal(want, [b'hello', b'brave', b'world'], 'words')
    elif case[0] in ('deep', 'wide'):
        _, n, leaf = case
        if case[0] == 'wide':
            leaves = [k % len(LEAVES) if k % 2 else leaf for k in range(n)]
            shape = tuple(range(n))
        else:
            shape, leaves = 0, [leaf, 2, 1]
            for layer in n:
                shape = {'(': (shape,), '[': [shape], '<': (shape, 1),
                         '>': (2, shape)}[layer]
            if isinstance(shape, list):
                shape = (shape,)
        source, words = render(shape, leaves, SUBTYPES[0])
        data = HEAD + source
        want = [x for i in words for x in reference(i)]
        eol = b'\n'
    else:
        _, n, s, sub, leaves, eol = case
        source, words = render(SHAPES[n][s], leaves, sub)
        data = HEAD + source
        want = [x for i in words for x in reference(i)]
    data = data.replace(b'\n', eol)
    got = body(data)
    need(got == want, 'message {!r}: tokens {!r}, expected {!r}', data, got,
         want)
    rec.state(tuple(got))
