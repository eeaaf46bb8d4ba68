"""N02: name lookups never fail and leave the timeout as it was."""
import itertools
import os
import socket

from mc.core import need, need_equal

PROPERTY = 'N02'
LEVEL = 'model_checking'
RULE = ('every sequence of up to three (thorough: four) lookups (forward or '
        'reverse, with each of 19 outcomes of the resolver, with another '
        'lookup inside or not) and changes of the default timeout, from '
        'every initial timeout out of six; and every odd name out of 40 '
        'through the real resolver without a network. Non-trivial: some '
        'lookup.')
ASSUMPTIONS = ['an exception that is not a failure of the lookup '
               '(interruption, exhausted memory) may pass through']

TIMEOUTS = [None, 0.0, 0.5, 10.0, 10, 3600.0]
FOUND = [[], ['192.0.2.1'], ['192.0.2.1', '192.0.2.2', '192.0.2.1'],
         ['2001:db8::1', '192.0.2.9']]


class Odd(Exception):
    pass


FAILURES = [
    lambda: socket.gaierror(-2, 'Name or service not known'),
    lambda: socket.gaierror(-3, 'Temporary failure in name resolution'),
    lambda: socket.herror(1, 'Unknown host'),
    lambda: socket.herror(4, 'No address associated with name'),
    lambda: socket.timeout('timed out'),
    lambda: TimeoutError(110, 'Connection timed out'),
    lambda: ConnectionRefusedError(111, 'Connection refused'),
    lambda: OSError('unspecific'),
    lambda: PermissionError(1, 'Operation not permitted'),
    lambda: UnicodeError('label empty or too long'),
    lambda: UnicodeEncodeError('idna', 'x', 0, 1, 'no'),
    lambda: ValueError('embedded null character'),
    lambda: TypeError('encoded string without null bytes'),
    # not failures of the lookup
    KeyboardInterrupt, MemoryError, SystemExit]
ODD = 13
OUTCOMES = [('found', f) for f in range(1, len(FOUND))] + \
    [('failed', f) for f in range(len(FAILURES))]
NAMES = ['a\0b', '', '.', 'a..b', 'x' * 64 + '.org', 'x' * 300, '\udce9',
         '\x7f', ' ', '\xe9', '-', 'a b', 'fe80::1%eth0', '1.2.3', '\u3002',
         '999.1.1.1', 'xn--', 'xn--\udcff', '\xdf.com', '[::1]', '127.0.0.1',
         '::1', '1.2.3.4', 'no-such.invalid', 'localhost', '0', '256', '*',
         'a\n', 'a\nb', '%', '::1%\0', '\ud800', '\U0001f600', 'a.', '_x.y',
         '1.2.3.4.', '::ffff:1.2.3.4', '0x7f.1', 'a\tb']

real = {}


class Script:
    """What the resolver does."""
    outcomes = None         # None: the real resolver
    seen = []
    asked = []

    @classmethod
    def answer(cls, shape, real, args):
        if cls.outcomes is None:
            return real(*args)
        cls.seen.append(socket.getdefaulttimeout())
        cls.asked.append(args[0] if args else None)
        kind, n, nested = cls.outcomes.pop(0)
        if nested is not None:
            lookup(nested, 'nested.example.org')
        if kind == 'failed':
            raise FAILURES[n]()
        return shape(FOUND[n])


def before_import():
    os.environ['RES_OPTIONS'] = 'timeout:1 attempts:1'

    def shape_info(found):
        return [(socket.AF_INET6 if ':' in a else socket.AF_INET,
                 socket.SOCK_STREAM, 6, '',
                 (a, 80, 0, 0) if ':' in a else (a, 80))
                for a in found for _ in range(2)]

    def shape_name(found):
        return 'host%d.example.com' % len(found), ['alias.x'], found

    for name, shape in (('getaddrinfo', shape_info),
                        ('gethostbyaddr', shape_name),
                        ('gethostbyname', lambda found: found[0]),
                        ('gethostbyname_ex', shape_name)):
        def stand_in(*args, real=getattr(socket, name), shape=shape, **kw):
            return Script.answer(shape, real, args or tuple(kw.values()))
        setattr(socket, name, stand_in)


def lookup(direction, name):
    from sbclassifier.dnsutils import dns_lookup, reverse_dns_lookup
    if direction == 'forward':
        return dns_lookup(name)
    return reverse_dns_lookup(name)


def units(tier, seed):
    t = tier == 'thorough'
    result = [('real', i) for i in range(len(NAMES))]
    result += [('memo', i, 5 if t else 4) for i in range(len(CALLS))]
    result += [('script', t0, i, 4 if t else 3)
               for t0 in range(len(TIMEOUTS)) for i in range(len(STEPS))]
    return result


# a step: ('set', timeout) or (direction, outcome, nested direction or None)
STEPS = [('set', t) for t in range(len(TIMEOUTS))] + \
    [(d, o, None) for d in ('forward', 'reverse')
     for o in range(len(OUTCOMES))] + \
    [(d, o, e) for d in ('forward', 'reverse') for o in (0, 2, 3, 7, 16)
     for e in ('forward', 'reverse')]
FEW = STEPS[:3] + STEPS[6::4]
# arguments of a memoized function and what it gives for them
CALLS = [(('a',), 'A'), (('b',), ('B',)), (('a', 'b'), 0), ((), ()),
         (('none',), None), (('',), ''), (('b', 'a'), 'BA'),
         (('bad',), ValueError), (('list',), ['x'])]


def explore(unit, rec):
    if unit[0] == 'real':
        for direction in 'forward', 'reverse':
            for t in range(len(TIMEOUTS)):
                rec.run(('real', direction, unit[1], t))
        return
    if unit[0] == 'memo':
        _, i, n = unit
        for k in range(n):
            for rest in itertools.product(range(len(CALLS)), repeat=k):
                rec.run(('memo', (i,) + rest))
        return
    _, t0, i, n = unit
    for k in range(n):
        steps = STEPS if k < 2 else FEW
        for rest in itertools.product(steps, repeat=k):
            rec.run(('script', t0, (STEPS[i],) + rest))


def judge_memo(case, rec):
    from sbclassifier import dnsutils
    called = []

    def function(*args):
        called.append(args)
        result = dict(CALLS)[args]
        if result is ValueError:
            raise ValueError('bad')
        return result

    memoized = dnsutils.memoize(function)
    other = dnsutils.memoize(lambda *args: ('other', args))
    table = {k: v for k, v in CALLS}
    for i in case[1]:
        args, want = CALLS[i]
        try:
            got = memoized(*args)
        except ValueError as e:
            need(want is ValueError, 'the memoized function raises {!r}', e)
        else:
            need_equal(got, want, 'memoized function of %r' % (args,))
        need_equal(other(*args), ('other', args), 'another function')
        rec.step()
    for args in set(called):
        n = case[1].count([k for k, _ in CALLS].index(args))
        need_equal(called.count(args), n if table[args] is ValueError else 1,
                   'calls for %r' % (args,))
    need_equal(set(called), set(CALLS[i][0] for i in case[1]), 'calls')
    rec.state(case)


def judge(case, rec):
    from sbclassifier import dnsutils
    if case[0] == 'memo':
        return judge_memo(case, rec)
    try:
        if case[0] == 'real':
            _, direction, name, t = case
            socket.setdefaulttimeout(TIMEOUTS[t])
            Script.outcomes = None
            result = lookup(direction, NAMES[name])
            need(all(isinstance(x, str) for x in result),
                 '{} lookup of {!r}: {!r}', direction, NAMES[name], result)
            need_equal(socket.getdefaulttimeout(), TIMEOUTS[t],
                       'default timeout after a lookup of %r' % NAMES[name])
            rec.step()
            rec.state(case)
            return
        _, t0, steps = case
        current = TIMEOUTS[t0]
        socket.setdefaulttimeout(current)
        for step in steps:
            if step[0] == 'set':
                current = TIMEOUTS[step[1]]
                socket.setdefaulttimeout(current)
                continue
            direction, o, nested = step
            kind, n = OUTCOMES[o]
            Script.outcomes = [(kind, n, nested), ('found', 1, None)]
            Script.seen, Script.asked = [], []
            try:
                result = lookup(direction, 'name.example.com')
            except BaseException as e:
                need(kind == 'failed' and n >= ODD, 'a {} lookup raised {!r}',
                     direction, e)
                result = None
            need_equal(socket.getdefaulttimeout(), current,
                       'default timeout after a lookup (%s, %s)'
                       % (direction, describe(kind, n)))
            need(Script.seen and all(x == dnsutils.DEFAULT_TIMEOUT
                                     for x in Script.seen),
                 'timeouts during the lookup: {}, expected {}', Script.seen,
                 dnsutils.DEFAULT_TIMEOUT)
            need(set(Script.asked) <= {'name.example.com',
                                       'nested.example.org'} and
                 Script.asked[0] == 'name.example.com',
                 'a {} lookup asks for {}', direction, Script.asked)
            if result is not None:
                want = []
                if kind == 'found':
                    want = sorted(set(FOUND[n])) if direction == 'forward' \
                        else ['host%d.example.com' % len(FOUND[n])]
                need_equal(sorted(result), want, '%s lookup (%s)' %
                           (direction, describe(kind, n)))
            rec.step()
            rec.state((current, step))
    finally:
        Script.outcomes = None
        socket.setdefaulttimeout(None)


def describe(kind, n):
    return repr(FAILURES[n]()) if kind == 'failed' else 'found %s' % FOUND[n]
