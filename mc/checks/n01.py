"""N01: network prefixes of an address always contain it."""
import ipaddress
import itertools

from mc.core import need

PROPERTY = 'N01'
LEVEL = 'exploration'
RULE = ('every address with octets (hextets) out of a boundary alphabet, and '
        'every one with one bit set, one clear, or ones above or below a '
        'position, x every prefix length; every list of up to three '
        '(thorough: four) lengths; the default lengths; clues with every '
        'prefix out of ten. Oracle: integer arithmetic. Non-trivial: all.')
ASSUMPTIONS = []

OCTETS = [0, 1, 10, 127, 128, 255]
HEXTETS = [0, 1, 0x80, 0xff00, 0xffff]
LENGTHS = [0, 1, 7, 8, 9, 16, 24, 31, 32]
PREFIXES = ['', 'nntp-host', 'nntp-host-ip', 'url-ip', 'a:b', '{}', '%s', ' ',
            '{0.x}', 'caf\xe9']


def units(tier, seed):
    t = tier == 'thorough'
    result = [('octets', a, b) for a in OCTETS for b in OCTETS]
    result += [('bits', v, n) for v in (4, 6) for n in range(0, 32 if v == 4
                                                             else 128, 4)]
    result += [('hextets', a, b) for a in HEXTETS for b in HEXTETS]
    result += [('lists', a, 4 if t else 3) for a in LENGTHS]
    return result


def explore(unit, rec):
    kind = unit[0]
    if kind == 'octets':
        _, a, b = unit
        for c, d in itertools.product(OCTETS, OCTETS):
            address = int.from_bytes(bytes((a, b, c, d)), 'big')
            for n in range(33):
                rec.run(('one', 4, address, n))
            rec.run(('default', 4, address, n))
            for p in range(len(PREFIXES)):
                rec.run(('clues', 4, address, p))
    elif kind == 'bits':
        _, v, n = unit
        size = 32 if v == 4 else 128
        full = (1 << size) - 1
        for m in range(n, n + 4):
            for address in (1 << m, full ^ (1 << m), (1 << m) - 1,
                            full ^ ((1 << m) - 1), (1 << m) | 1,
                            full // 3, full // 3 * 2):
                for length in range(size + 1):
                    rec.run(('one', v, address, length))
                rec.run(('default', v, address, 0))
                rec.run(('clues', v, address, m % len(PREFIXES)))
    elif kind == 'hextets':
        _, a, b = unit
        for c in HEXTETS:
            for places in itertools.combinations(range(8), 3):
                address = 0
                for value, place in zip((a, b, c), places):
                    address |= value << (16 * place)
                for n in (0, 1, 8, 16, 24, 32, 48, 64, 127, 128):
                    rec.run(('one', 6, address, n))
                rec.run(('default', 6, address, 0))
                rec.run(('clues', 6, address, 1))
    else:
        _, first, n = unit
        for address in 0x0a010203, 0xffffffff, 0:
            if first == 0:
                rec.run(('list', address, ()))
            for k in range(n):
                for rest in itertools.product(LENGTHS, repeat=k):
                    rec.run(('list', address, (first,) + rest))


def text(version, address):
    """The address in words."""
    if version == 4:
        return '.'.join(str(b) for b in address.to_bytes(4, 'big'))
    return str(ipaddress.IPv6Address(address))


def network(version, address, n):
    size = 32 if version == 4 else 128
    return address >> (size - n) << (size - n)


def check(networks, version, address, lengths):
    networks = list(networks)
    need(len(networks) == len(lengths), '{}: {} networks for the lengths {}',
         text(version, address), len(networks), lengths)
    for net, n in zip(networks, lengths):
        got = str(net)
        want = '%s/%d' % (text(version, network(version, address, n)), n)
        need(got == want, '{}: network {} for the length {}, expected {}',
             text(version, address), got, n, want)


def judge(case, rec):
    from sbclassifier.iputils import gen_dotted_quad_clues, subnets
    rec.step()
    if case[0] == 'one':
        _, version, address, n = case
        check(subnets(text(version, address), [n]), version, address, [n])
        rec.state((version, n, network(version, address, n)))
    elif case[0] == 'list':
        _, address, lengths = case
        for given in list(lengths), tuple(lengths), iter(lengths):
            check(subnets(text(4, address), given), 4, address, lengths)
        rec.state((address, lengths))
    elif case[0] == 'default':
        _, version, address, _ = case
        a = text(version, address)
        check(subnets(a), version, address, (8, 16, 24, 32))
        check(subnets(a, None), version, address, (8, 16, 24, 32))
    else:
        _, version, address, p = case
        p = PREFIXES[p]
        got = list(gen_dotted_quad_clues(p, text(version, address)))
        want = ['%s:%s/%d' % (p, text(version, network(version, address, n)),
                              n) for n in (8, 16, 24, 32)]
        need(got == want, '{}: clues {!r}, expected {!r}',
             text(version, address), got, want)
        rec.state((version, address, p))
