"""Keys made from passphrases (RFC 4880 section 3.7)."""
from pgp import s2k
from hlib.util import be

HASHES = {1: ('md5', 16), 2: ('sha1', 20), 3: ('ripemd160', 20),
          8: ('sha256', 32), 9: ('sha384', 48), 10: ('sha512', 64),
          11: ('sha224', 28)}
KEYS = {1: 16, 2: 24, 3: 16, 4: 16, 7: 16, 8: 24, 9: 32, 10: 32, 11: 16,
        12: 24, 13: 32}


def count_of(c):
    return (16 + (c & 15)) * 2 ** ((c >> 4) + 6)


def reference(sx, mode, halg, size, salt, phrase, count):
    name, n = HASHES[halg]
    if mode == 0:
        octets = phrase
    elif mode == 1:
        octets = salt + phrase
    else:
        one = salt + phrase
        total = max(count, len(one))
        octets = (one * (total // len(one) + 1))[:total]
    out = b''
    k = 0
    while len(out) < size:
        out += sx.digest(name, bytes(bytearray(k)) + octets)
        k += 1
    return out[:size]


def h_derive(sx, mode, cipher, halg, n, coded, made):
    salt = sx.bytes('salt', 8)
    phrase = sx.bytes('phrase', n)
    raw = be(mode, 1) + be(halg, 1)
    count = None
    if mode:
        raw += salt
    if mode == 3:
        raw += be(coded, 1)
        count = count_of(coded)
    if made:
        if mode == 0:
            s = s2k.SimpleS2K(halg, cipher)
        elif mode == 1:
            s = s2k.SaltedS2K(halg, cipher, bytearray(salt))
        else:
            s = s2k.IteratedAndSaltedS2K(halg, cipher, bytearray(salt),
                                         count)
    else:
        s, off = s2k.parse_s2k_bytes(cipher, bytearray(b'?' + raw + b'??'), 1)
        sx.check(off == 1 + len(raw), 'offset')
    want = reference(sx, mode, halg, KEYS[cipher], salt, phrase, count)
    for again in range(2):
        key = s.to_key(phrase)
        sx.check(len(key) == KEYS[cipher], 'length of the key')
        sx.check(sx.eq(bytes(key), want), 'key')
    sx.check(sx.eq(bytes(s), raw), 'written')
    sx.reach('end')


def h_specifier(sx, kind, size):
    """Any octets: what they say and what is written for them."""
    halg = sx.int('hash', 0, 255)
    cipher = sx.int('cipher', 0, 255)
    salt = sx.bytes('salt', 8)
    c = sx.int('count', 0, 255)
    if kind == 'simple':
        raw = b'\x00' + be(halg, 1)
    elif kind == 'salted':
        raw = b'\x01' + be(halg, 1) + salt
    elif kind == 'iterated':
        raw = b'\x03' + be(halg, 1) + salt + be(c, 1)
    elif kind == 'dummy':
        raw = b'\x65' + be(halg, 1) + b'GNU\x01'
    else:
        serial = sx.bytes('serial', size)
        raw = b'\x65' + be(halg, 1) + b'GNU\x02' + be(size, 1) + serial
    s, off = s2k.parse_s2k_bytes(cipher, bytearray(raw + b'rest'))
    sx.check(off == len(raw), 'offset')
    sx.check(s.hash_algorithm == halg, 'hash')
    sx.check(s.symmetric_algorithm == cipher, 'cipher')
    if kind in ('salted', 'iterated'):
        sx.check(sx.eq(bytes(s.salt), salt), 'salt')
    if kind == 'iterated':
        sx.check(s.count == (16 + (c & 15)) << ((c >> 4) + 6), 'count')
    if kind == 'card':
        sx.check(sx.eq(bytes(s), raw), 'written')
    sx.check(sx.eq(bytes(s), raw), 'written')
    again = s2k.parse_s2k_bytes(cipher, bytearray(raw))[0]
    sx.check(s == again, 'equal to itself')
    sx.reach('end')


def h_differ(sx, kind):
    """Specifiers that differ are not equal."""
    n = {'simple': 1, 'salted': 9, 'iterated': 10}[kind]
    mode = {'simple': b'\x00', 'salted': b'\x01', 'iterated': b'\x03'}[kind]
    a = sx.bytes('a', n)
    b = sx.bytes('b', n)
    x = s2k.parse_s2k_bytes(9, bytearray(mode + a))[0]
    y = s2k.parse_s2k_bytes(9, bytearray(mode + b))[0]
    sx.check(sx.eq(x == y, sx.eq(a, b)), 'equal if the octets are')
    sx.reach('end')


def h_unknown(sx):
    t = sx.int('type', 0, 255)
    sx.assume(sx.no(sx.either(t == 0, t == 1, t == 3, t == 101)))
    try:
        s2k.parse_s2k_bytes(9, bytearray(be(t, 1) + bytes(bytearray(20))))
    except Exception:
        sx.reach('end')
        return
    sx.fail('unknown specifier accepted')


# --- cases ---


def cases(tier):
    big = tier == 'thorough'
    out = []
    keys = (1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13)
    hashes = (1, 2, 3, 8, 9, 10, 11)
    k = 0
    for cipher in keys:
        for halg in hashes:
            for mode in (0, 1, 3):
                k += 1
                out.append(('h_derive', dict(
                    mode=mode, cipher=cipher, halg=halg, n=(3, 8, 1)[k % 3],
                    coded=(0, 1, 3)[k % 3], made=bool(k % 2))))
    for n in (0, 1, 2, 7, 55, 56, 63, 64, 65, 200):
        for mode in (0, 1, 3):
            out.append(('h_derive', dict(mode=mode, cipher=9, halg=2, n=n,
                                         coded=0, made=False)))
    for coded in (1, 0x0f, 0x10, 0x1f, 0x25, 0x30, 0x60) + (
            (0x61, 0x70, 0x80, 0x90, 0xa0) if big else ()):
        for n in (1, 8, 12):
            out.append(('h_derive', dict(mode=3, cipher=9, halg=2, n=n,
                                         coded=coded, made=n == 8)))
    for n in (1015, 1016, 1017, 1024, 2000):
        out.append(('h_derive', dict(mode=3, cipher=9, halg=8, n=n, coded=0,
                                     made=True)))
    for kind in ('simple', 'salted', 'iterated', 'dummy'):
        out.append(('h_specifier', dict(kind=kind, size=0)))
    for size in (0, 1, 16, 17, 40):
        out.append(('h_specifier', dict(kind='card', size=size)))
    for kind in ('simple', 'salted', 'iterated'):
        out.append(('h_differ', dict(kind=kind)))
    out.append(('h_unknown', {}))
    return out
