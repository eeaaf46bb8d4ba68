"""Tokenizer helpers: options, a stand-in resolver, and calling it."""
import importlib
import socket
from collections import Counter

from mc.core import need

# options that are read when tokenizing, in the module that reads them
TOKENIZER = dict(CHECK_OCTETS=True, X_SHORT_RUNS=True, IMAGE_SIZE=True,
                 COUNT_ALL_HEADER_LINES=True, RECORD_HEADER_ABSENCE=True,
                 MINE_RECEIVED_HEADERS=True, X_MINE_NNTP_HEADERS=True,
                 GENERATE_LONG_SKIPS=False, SUMMARIZE_EMAIL_PREFIXES=True,
                 SUMMARIZE_EMAIL_SUFFIXES=True,
                 X_SEARCH_FOR_HABEAS_HEADERS=True,
                 X_REDUCE_HABEAS_HEADERS=True, REPLACE_NONASCII_CHARS=True)
STRIPPERS = dict(X_PICK_APART_URLS=True, X_LOOKUP_IP=True)
ALL = tuple(TOKENIZER) + tuple(STRIPPERS) + ('FANCY_URL_RECOGNITION',)

_current = None
_defaults = {}


def configure(names=()):
    """The tokenizer module with just these options toggled."""
    global _current
    names = frozenset(names)
    import sbclassifier.strippers as s
    import sbclassifier.tokenizer as t
    if _current == names:
        return t
    if not _defaults:
        for m, options in ((t, TOKENIZER), (s, STRIPPERS)):
            for k in options:
                _defaults[k] = getattr(m, k)
    fancy = 'FANCY_URL_RECOGNITION' in names
    was = _current is not None and 'FANCY_URL_RECOGNITION' in _current
    if fancy != was:
        # read when the module is loaded
        s.FANCY_URL_RECOGNITION = fancy
        importlib.reload(t)
    for m, options in ((t, TOKENIZER), (s, STRIPPERS)):
        for k, v in options.items():
            setattr(m, k, v if k in names else _defaults[k])
    _current = names
    return t


class Resolver:
    """Answers lookups without a network."""
    names = {'host.example.com': ['10.1.2.3', '10.1.2.4'],
             'one.example.org': ['192.0.2.1'],
             'news.deep.sub.example.net': ['192.0.2.7'],
             'other.example.org': ['192.0.2.1']}
    calls = 0

    @classmethod
    def install(cls):
        socket.gethostbyaddr = cls.gethostbyaddr
        socket.getaddrinfo = cls.getaddrinfo
        socket.gethostbyname = cls.gethostbyname
        socket.gethostbyname_ex = cls.gethostbyname_ex

    @classmethod
    def gethostbyaddr(cls, address):
        cls.calls += 1
        if '\0' in address:
            raise TypeError('argument 1 must be encoded string without null '
                            'bytes, not str')
        address.encode('idna')
        for name, addresses in cls.names.items():
            if address in addresses:
                return name, [], addresses
        raise socket.herror(1, 'Unknown host')

    @classmethod
    def getaddrinfo(cls, name, port, *args, **kw):
        cls.calls += 1
        if isinstance(name, str):
            name.encode('idna')
        if name not in cls.names:
            raise socket.gaierror(-2, 'Name or service not known')
        return [(socket.AF_INET, socket.SOCK_STREAM, 6, '', (a, port))
                for a in cls.names[name]]

    @classmethod
    def gethostbyname(cls, name):
        return cls.gethostbyname_ex(name)[2][0]

    @classmethod
    def gethostbyname_ex(cls, name):
        return name, [], [x[4][0] for x in cls.getaddrinfo(name, 0)]


def message(raw):
    from sbclassifier.message import from_bytes, from_string
    return from_bytes(raw) if isinstance(raw, bytes) else from_string(raw)


def tokens(raw, t=None):
    t = t or configure()
    result = list(t.tokenize(message(raw)))
    for x in result:
        need(isinstance(x, bytes), 'token {!r} is not a byte string', x)
    return result


_header_only = {}


def body_tokens(body, headers=b'Subject: s\n', t=None, options=()):
    """The tokens (counted) that a body adds to those of its headers."""
    key = headers, options
    if key not in _header_only:
        _header_only[key] = Counter(tokens(headers + b'\n', t))
    result = Counter(tokens(headers + b'\n' + body, t))
    missing = _header_only[key] - result
    need(not missing, 'the body {!r} takes away tokens of the headers: {!r}',
         body, missing)
    return result - _header_only[key]
