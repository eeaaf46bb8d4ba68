"""Raw messages for the corpus and message checks."""

RAW = {
    'plain': b'From: a@example.com\nTo: b@example.com\nSubject: one\n\n'
             b'hello world\n',
    'other': b'From: c@example.com\nSubject: two\n\nbuy cheap pills now\n',
    'empty': b'',
    'no body': b'Subject: none\n\n',
    'no header': b'\njust a body line\n',
    'crlf': b'Subject: crlf\r\nTo: x@example.com\r\n\r\nline one\r\nline two'
            b'\r\n',
    '8bit': b'Subject: caf\xe9\nContent-Type: text/plain; charset=latin-1\n'
            b'Content-Transfer-Encoding: 8bit\n\nd\xe9j\xe0 vu \xff\x00 end\n',
    'folded': b'Subject: a long\n subject line\n\tand more\nX-Y: z\n\nbody',
    'long lines': b'Subject: ' + b'many words ' * 12 + b'\nX-Y: ' + b'z' * 100 +
                  b' a\n\nbody',
    'from lines': b'Subject: s\n\nFrom the start\n>From there\nFrom\n',
    'multipart': b'MIME-Version: 1.0\nContent-Type: multipart/mixed; '
                 b'boundary="XX"\n\npreamble\n--XX\nContent-Type: '
                 b'text/plain\n\npart one\n--XX\nContent-Type: text/html\n\n'
                 b'<b>part two</b>\n--XX--\nepilogue\n',
    'broken multipart': b'Content-Type: multipart/mixed; boundary="XX"\n\n'
                        b'--XX\n\nnever ended\n',
    'base64': b'Content-Type: text/plain\nContent-Transfer-Encoding: base64\n'
              b'\naGVsbG8gd29ybGQ=\n',
    'nested': b'Content-Type: message/rfc822\n\nSubject: inner\n\ninner '
              b'body\n',
    'repeated': b'Received: one\nReceived: two\nX-A: 1\nx-a: 2\n\nbody\n',
    'no end': b'Subject: s\n\nno newline at end',
}


def message(name, id=None):
    from sbclassifier.message import from_bytes
    return from_bytes(RAW[name], id)


def content(m):
    """What must be the same when a message is read back."""
    return m.as_bytes(), [headers(p) for p in m.walk()]


def headers(part):
    return list(part.raw_items())
