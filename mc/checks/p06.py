"""P06: constant-database files hold exactly the given pairs."""
import io
import itertools
import os
import struct

from mc import core
from mc.core import need, need_equal, show

PROPERTY = 'P06'
LEVEL = 'exploration'
RULE = ('every list of up to four (thorough: five) pairs over keys chosen to '
        'collide (same hash, same table and slot, same table, prefixes, '
        'empty), with values that differ by position or are empty; every '
        'number of records up to 300 in one and in all tables; read back '
        'through the package and by an independent reader of the published '
        'format; a lookup of all values of a key. Non-trivial: has a pair.')
ASSUMPTIONS = ['files stay below 4 GB']


def cdb_hash(key):
    h = 5381
    for c in key:
        h = ((h * 33) & 0xffffffff) ^ c
    return h


def collisions():
    """(two keys with one hash, four keys of one table, two of which start at
    the same slot of a table of 2, 4, 6 or 8 slots)."""
    seen, by_table = {}, {}
    same = None
    for n in (1, 2, 3):
        for t in itertools.product(b'abcdefghijklmnopqrstuvwxyz0123456789',
                                   repeat=n):
            k = bytes(t)
            h = cdb_hash(k)
            if h in seen and same is None:
                same = seen[h], k
            seen.setdefault(h, k)
            by_table.setdefault(h & 255, []).append(k)
    table = cdb_hash(same[0]) & 255
    group = [k for k in by_table[table] if k not in same]
    # the last slot of a table of 4, so that probing wraps around
    last = [k for k in group if (cdb_hash(k) >> 8) % 4 == 3]
    return same, last[:2]


assert cdb_hash(b'aa') == cdb_hash(b'aa\xc3<\x05\x82\x18')
SAME, LAST = collisions()
KEYS = [b'', b'a', SAME[0], SAME[1], LAST[0], LAST[1], b'a\0', b'\xff']
# a key, and a longer one with the same hash
PREFIX = [b'aa', b'aa\xc3<\x05\x82\x18']
ABSENT = PREFIX + [b'absent', b'A', b'\0', b'', b'a', b'a\0\0', b'\xff\xff',
          SAME[0] + b'x'] + KEYS
TEXT = ['', 'a', 'caf\xe9', '\u20ac', '1,2', '\0b', 'saved state']
BIG = [b'', b'x' * 255, b'y' * 256, b'z' * 70000]


def units(tier, seed):
    t = tier == 'thorough'
    result = [('list', n, i) for n in range(0, 6 if t else 5)
              for i in range(len(KEYS) if n else 1)]
    result += [('text', n) for n in range(1, 4)]
    result += [('prefix', n) for n in range(1, 4)]
    result += [('many', table, lo) for table in ('one', 'all')
               for lo in range(0, 1200 if t else 300, 20)]
    result += [('big', i) for i in range(len(BIG))]
    return result


def explore(unit, rec):
    kind = unit[0]
    if kind == 'list':
        _, n, i = unit
        for keys in itertools.product(KEYS, repeat=max(0, n - 1)):
            keys = ((KEYS[i],) + keys) if n else ()
            for values in ('position', 'empty', 'same') if n < 4 else (
                    'position',):
                rec.run(('list', keys, values), n > 0)
    elif kind == 'text':
        for keys in itertools.product(TEXT, repeat=unit[1]):
            rec.run(('list', keys, 'text'))
    elif kind == 'prefix':
        for keys in itertools.product(PREFIX + [b'b'], repeat=unit[1]):
            for values in ('position', 'empty'):
                rec.run(('list', keys, values))
    elif kind == 'many':
        for n in range(unit[2], unit[2] + 20):
            rec.run(('many', unit[1], n))
    else:
        for v in range(len(BIG)):
            rec.run(('big', unit[1], v))


def same_table(n, _cache={}):
    keys = _cache.setdefault('keys', [])
    i = _cache.get('i', 0)
    while len(keys) < n:
        k = b'k%d' % i
        if cdb_hash(k) & 255 == 7:
            keys.append(k)
        i += 1
    _cache['i'] = i
    return keys[:n]


def judge(case, rec):
    kind = case[0]
    if kind == 'list':
        _, keys, values = case
        v = {'position': lambda i: b'v%d' % i, 'empty': lambda i: b'',
             'same': lambda i: b'v', 'text': lambda i: 'w%d\xe9' % i}[values]
        items = [(k, v(i)) for i, k in enumerate(keys)]
    elif kind == 'many':
        _, table, n = case
        keys = same_table(n) if table == 'one' else [b'%d' % i
                                                     for i in range(n)]
        items = [(k, k * (i % 3)) for i, k in enumerate(keys)]
    else:
        items = [(BIG[case[1]], BIG[case[2]]), (b'next', b'1'),
                 (b'k' + BIG[case[2]], BIG[case[1]])]
    check(items)


def as_bytes(x):
    return x.encode('utf-8') if isinstance(x, str) else x


_dir = []


def check(items):
    from sbclassifier import cdb
    if not _dir:
        _dir.append(core.scratch())
    path = os.path.join(_dir[0], 'db')
    with open(path, 'wb') as f:
        cdb.cdb_make(f, list(items))
    with open(path, 'rb') as f:
        data = f.read()
    pairs = [(as_bytes(k), as_bytes(v)) for k, v in items]
    first = {}
    for k, v in pairs:
        first.setdefault(k, v)

    # the published format
    records, end = scan(data)
    need_equal(records, pairs, 'records in the file')
    for k in list(first) + ABSENT:
        need_equal(lookup(data, k), first.get(k),
                   'independent lookup of %s' % show(k, 60))

    # the package's own reader, also of files with full tables
    read_back(path, items, pairs, first)
    if len(pairs) < 5:
        with open(path, 'wb') as f:
            f.write(full_tables(pairs))
        read_back(path, items, pairs, first)


def read_back(path, items, pairs, first):
    from sbclassifier import cdb
    for k in list(first)[-1:]:
        with open(path, 'rb') as f:
            db = cdb.Cdb(f)
            need_equal(list(occurrences(db, k)),
                       [v for q, v in pairs if q == k],
                       'all values of %s at once' % show(k, 60))
            db.close()
    with open(path, 'rb') as f:
        db = cdb.Cdb(f)
        try:
            need_equal(list(db), pairs, 'iteration')
            need_equal(list(db.iteritems()), pairs, 'iteritems()')
            need_equal(list(db.items()), pairs, 'items()')
            need_equal(list(db.keys()), [k for k, v in pairs], 'keys()')
            need_equal(list(db.iterkeys()), [k for k, v in pairs],
                       'iterkeys()')
            need_equal(list(db.values()), [v for k, v in pairs], 'values()')
            need_equal(list(db.itervalues()), [v for k, v in pairs],
                       'itervalues()')
            for k in list(first) + ABSENT + list(reversed(list(first))):
                what = show(k, 60)
                need_equal(db.get(k), first.get(k), 'get(%s)' % what)
                need_equal(db.get(k, 'none'), first.get(k, 'none'),
                           'get(%s, default)' % what)
                try:
                    got = db[k]
                except KeyError:
                    got = None
                need_equal(got, first.get(k), 'db[%s]' % what)
            for k, v in items:
                if isinstance(k, str):
                    need_equal(db.get(k), first[as_bytes(k)],
                               'get(%s) by text' % show(k, 60))
            # all values of a key
            for k in list(first) + ABSENT[:3]:
                for again in range(2):
                    db.findstart()
                    need_equal(list(occurrences(db, k)),
                               [v for q, v in pairs if q == k],
                               'all values of %s' % show(k, 60))
            # iterating and looking up do not disturb each other
            got = []
            for k, v in db.iteritems():
                got.append((k, v))
                need_equal(db.get(k), first[k], 'lookup while iterating')
            need_equal(got, pairs, 'iteration with lookups')
        finally:
            db.close()


def full_tables(pairs):
    """The pairs in the published format, with no slot left empty."""
    data, tables = b'', [[] for _ in range(256)]
    for k, v in pairs:
        h = cdb_hash(k)
        tables[h & 255].append((h, 2048 + len(data)))
        data += struct.pack('<LL', len(k), len(v)) + k + v
    header = b''
    for entries in tables:
        header += struct.pack('<LL', 2048 + len(data), len(entries))
        slots = [None] * len(entries)
        for h, p in entries:
            n = (h >> 8) % len(slots)
            while slots[n]:
                n = (n + 1) % len(slots)
            slots[n] = h, p
        data += b''.join(struct.pack('<LL', *x) for x in slots)
    return header + data


def occurrences(db, key):
    try:
        while True:
            yield db.findnext(key)
    except KeyError:
        pass


def scan(data):
    """All records of a cdb file, by position."""
    need(len(data) >= 2048, 'the file has {} bytes', len(data))
    header = struct.unpack('<512L', data[:2048])
    end = min(header[::2])
    need(2048 <= end <= len(data), 'records end at {} of {}', end, len(data))
    records, pos = [], 2048
    while pos < end:
        need(pos + 8 <= end, 'a record at {} exceeds the data', pos)
        klen, vlen = struct.unpack('<LL', data[pos:pos + 8])
        need(pos + 8 + klen + vlen <= end, 'the record at {} exceeds the data',
             pos)
        records.append((data[pos + 8:pos + 8 + klen],
                        data[pos + 8 + klen:pos + 8 + klen + vlen]))
        pos += 8 + klen + vlen
    return records, end


def lookup(data, key):
    h = cdb_hash(key)
    pos, slots = struct.unpack('<LL', data[(h & 255) * 8:(h & 255) * 8 + 8])
    if not slots:
        return None
    need(pos + slots * 8 <= len(data), 'table {} exceeds the file', h & 255)
    start = (h >> 8) % slots
    for i in range(slots):
        at = pos + (start + i) % slots * 8
        slot_hash, record = struct.unpack('<LL', data[at:at + 8])
        if record == 0:
            return None
        if slot_hash == h:
            klen, vlen = struct.unpack('<LL', data[record:record + 8])
            if data[record + 8:record + 8 + klen] == key:
                return data[record + 8 + klen:record + 8 + klen + vlen]
    return None
