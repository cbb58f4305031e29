"""Block ciphers and their modes."""
from Crypto.Cipher import AES, Blowfish, CAST, DES3
import camcrypt
import twofish as twofish_impl
from pgp import utils
from pgp.cipher import aidea
from pgp.cipher import camellia
from pgp.cipher import twofish
from pgp.cipher import wrapper
from hlib.util import be

ECB, CBC, CFB, OFB, CTR = 1, 2, 3, 5, 6
# id: (name, block size, key sizes)
CIPHERS = {'idea': (8, (16,)), 'twofish': (16, (16, 24, 32)),
           'camellia': (16, (16, 24, 32)), 'aes': (16, (16, 24, 32)),
           'cast': (8, (16,)), 'blowfish': (8, (16,)), 'des3': (8, (24,))}
IDS = {1: ('idea', 16), 2: ('des3', 24), 3: ('cast', 16),
       4: ('blowfish', 16), 7: ('aes', 16), 8: ('aes', 24), 9: ('aes', 32),
       10: ('twofish', 32), 11: ('camellia', 16), 12: ('camellia', 24),
       13: ('camellia', 32)}
LIBS = {'aes': AES, 'cast': CAST, 'blowfish': Blowfish, 'des3': DES3}


class Block(object):
    """One block of a cipher, by the library itself."""

    def __init__(self, name, key):
        self.name = name
        self.size = CIPHERS[name][0]
        if name == 'idea':
            self.impl = aidea.AIDEA(key)
        elif name == 'twofish':
            self.impl = twofish_impl.Twofish(key)
        elif name == 'camellia':
            from pgp.cipher import camcrypt_kwargs
            self.impl = camcrypt.CamCrypt(**camcrypt_kwargs)
            self.impl.keygen(len(key) * 8, key)
        else:
            self.impl = LIBS[name].new(key, 1)

    def encrypt(self, block):
        return bytes(bytearray(self.impl.encrypt(bytes(block))))

    def decrypt(self, block):
        return bytes(bytearray(self.impl.decrypt(bytes(block))))


def xor(a, b):
    return bytes(bytearray([x ^ y for x, y in zip(bytearray(a),
                                                  bytearray(b))]))


def reference(e, mode, iv, data, seg, counters):
    n = e.size
    out = b''
    if mode == ECB:
        for i in range(0, len(data), n):
            out += e.encrypt(data[i:i + n])
    elif mode == CBC:
        for i in range(0, len(data), n):
            iv = e.encrypt(xor(data[i:i + n], iv))
            out += iv
    elif mode == CFB:
        for i in range(0, len(data), seg):
            c = xor(data[i:i + seg], e.encrypt(iv))
            out += c
            iv = (iv + c)[-n:]
    elif mode == OFB:
        for i in range(0, len(data), n):
            iv = e.encrypt(iv)
            out += xor(data[i:i + n], iv)
    else:
        for i in range(0, len(data), n):
            out += xor(data[i:i + n], e.encrypt(counters[i // n]))
    return out


def open_(name, key, mode, iv, seg, counters):
    kw = {}
    if mode in (CBC, CFB, OFB):
        kw['IV'] = iv
    if mode == CFB and seg is not None:
        kw['segment_size'] = seg * 8
    if mode == CTR:
        todo = list(counters)
        kw['counter'] = lambda: todo.pop(0)
    if name == 'idea':
        return aidea.new(key, mode, **kw)
    if name == 'twofish':
        return twofish.new(key, mode, **kw)
    if name == 'camellia':
        return camellia.new(key, mode, **kw)
    return wrapper.new(LIBS[name], key, mode, **kw)


def key_of(sx, name, size):
    if name == 'idea':
        # whatever the key, see h_idea
        return bytes(bytearray([(i * 37 + 11) & 0xff for i in range(size)]))
    return sx.bytes('key', size)


def setting(sx, name, ksize, mode, n):
    # IDEA is decided by itself below: here its inverse sees plain octets
    sym = 0 if mode in (ECB, CBC) else 2
    bs = CIPHERS[name][0]
    key = key_of(sx, name, ksize)
    if name == 'idea':
        iv = bytes(bytearray(range(bs)))
        sym = min(n, sym)
        data = bytes(bytearray([i * 7 & 0xff for i in range(n - sym)])) + \
            sx.bytes('data', sym)
        counters = [be(i + 5, bs) for i in range(n // bs + 1)]
    else:
        iv = sx.bytes('iv', bs)
        data = sx.bytes('data', n)
        counters = [sx.bytes('ctr%d' % i, bs) for i in range(n // bs + 1)]
    return key, iv, data, counters


def h_mode(sx, name, ksize, mode, n, split, seg):
    """Encryption is what the mode says, however the data is split, and
    decryption gets the data back."""
    bs = CIPHERS[name][0]
    key, iv, data, counters = setting(sx, name, ksize, mode, n)
    c = open_(name, key, mode, iv, seg, counters)
    got = bytes(c.encrypt(data[:split]))
    if split < n:
        got += bytes(c.encrypt(data[split:]))
    want = reference(Block(name, key), mode, iv, data, seg or 1, counters)
    sx.check(len(got) == n, 'length')
    sx.check(sx.eq(got, want), 'encrypted')
    d = open_(name, key, mode, iv, seg, counters)
    back = b''
    if split < n:
        back = bytes(d.decrypt(got[:n - split]))
    back += bytes(d.decrypt(got[n - split:] if split < n else got))
    sx.check(sx.eq(back, data), 'decrypted')
    # what is not a ciphertext of ours decrypts to what encrypts to it
    if mode == ECB or mode == CBC:
        d = open_(name, key, mode, iv, seg, counters)
        x = bytes(d.decrypt(data))
        c = open_(name, key, mode, iv, seg, counters)
        sx.check(sx.eq(bytes(c.encrypt(x)), data), 'both ways')
    sx.reach('end')


def h_table(sx, id_, mode, n, syncable):
    """The cipher that an algorithm number stands for."""
    name, ksize = IDS[id_]
    bs = CIPHERS[name][0]
    key, iv, data, counters = setting(sx, name, ksize, mode, n)
    sx.check(utils.symmetric_cipher_block_lengths[id_] == bs, 'block size')
    sx.check(utils.symmetric_cipher_key_lengths[id_] == ksize, 'key size')
    m = {CBC: utils.CBC, CFB: utils.CFB, OFB: utils.OFB}[mode]
    c = utils.get_symmetric_cipher(id_, bytearray(key), m, iv,
                                   syncable=syncable)
    want = reference(Block(name, key), mode, iv, data, bs, counters)
    got = bytes(c.encrypt(data))
    sx.check(sx.eq(got, want), 'encrypted')
    c = utils.get_symmetric_cipher(id_, bytearray(key), m, bytearray(iv),
                                   syncable=syncable)
    sx.check(sx.eq(bytes(c.decrypt(got)), data), 'decrypted')
    sx.reach('end')


def refused(fn, *args, **kw):
    try:
        fn(*args, **kw)
    except Exception:
        return True
    return False


def h_refuse(sx, name, what, n):
    bs, sizes = CIPHERS[name]
    key = key_of(sx, name, sizes[0])
    iv = sx.bytes('iv', bs)
    if what == 'key':
        bad = sx.bytes('bad', n)
        for mode in (ECB, CBC):
            sx.check(refused(open_, name, bad, mode, iv, None, None),
                     'key of that size')
    elif what == 'iv':
        bad = sx.bytes('bad', n)
        for mode in (CBC, CFB, OFB):
            sx.check(refused(open_, name, key, mode, bad, bs, None),
                     'IV of that size')
    elif what == 'data':
        data = sx.bytes('data', n)
        for mode in (ECB, CBC, CFB):
            c = open_(name, key, mode, iv, bs, None)
            sx.check(refused(c.encrypt, data), 'partial block encrypted')
            c = open_(name, key, mode, iv, bs, None)
            sx.check(refused(c.decrypt, data), 'partial block decrypted')
    elif what == 'segment':
        sx.check(refused(open_, name, key, CFB, iv, n, None), 'segment size')
    elif what == 'counter':
        c = open_(name, key, CTR, iv, None, [sx.bytes('ctr', n)])
        sx.check(refused(c.encrypt, b'a'), 'counter of that size')
        sx.check(refused(aidea.new if name == 'idea' else twofish.new,
                         key, CTR), 'no counter')
    sx.reach('end')


def idea_mul(x, y):
    """RFC: multiplication modulo 65537, 0 standing for 65536."""
    a = (x - 1) & 0xffff
    b = (y - 1) & 0xffff
    p = a * b + a + b + 1
    return p


def h_idea_mul(sx, lo, hi):
    x = sx.int('x', 0, 0xffff)
    y = sx.int('y', lo, hi)
    r = aidea.mul(x, y)
    p = idea_mul(x, y)
    q = p >> 16
    low = p & 0xffff
    # 65536 = -1 (mod 65537)
    d = low - q
    want = sx.ite(d < 0, d + 0x10001, d)
    # d == 0 would make p a multiple of 65537, a prime larger than both factors
    sx.check(sx.either(d == 0, (r & 0xffff) == (want & 0xffff)), 'product')
    sx.reach('end')


def h_idea_inv(sx, lo, hi):
    x = sx.int('x', lo, hi)
    r = aidea.mul_inv(x)
    p = idea_mul(x, r & 0xffff)
    sx.check(p % 0x10001 == 1, 'inverse')
    sx.reach('end')


def round_keys(key):
    """The schedule: the key turned left by 25 bits after every eight."""
    bits = 0
    for b in bytearray(key):
        bits = (bits << 8) | b
    out = []
    while len(out) < 52:
        for i in range(8):
            out.append((bits >> (112 - 16 * i)) & 0xffff)
        bits = ((bits << 25) | (bits >> 103)) & ((1 << 128) - 1)
    return out[:52]


def abstract(sx):
    """Replaces the two arithmetic functions by arbitrary ones: they are
    decided by themselves above. False if the code has no such functions."""
    if not (hasattr(aidea, 'mul') and hasattr(aidea, 'mul_inv')):
        return False

    def two(data):
        d = bytearray(sx.digest('sha1', bytes(data)))
        return (d[0] << 8) | d[1]

    sx.patch(aidea, 'mul', lambda x, y: two(be(x & 0xffff, 2) +
                                            be(y & 0xffff, 2)))
    sx.patch(aidea, 'mul_inv', lambda x: two(be(x & 0xffff, 2)))
    return True


def idea(block, keys, mul):
    """IDEA as its authors describe it."""
    b = bytearray(block)
    x = [(b[i] << 8) | b[i + 1] for i in (0, 2, 4, 6)]
    m = 0xffff
    for r in range(8):
        z = keys[6 * r:6 * r + 6]
        a, b, c, d = (mul(x[0], z[0]), (x[1] + z[1]) & m,
                      (x[2] + z[2]) & m, mul(x[3], z[3]))
        e = mul(a ^ c, z[4])
        f = mul((e + (b ^ d)) & m, z[5])
        g = (e + f) & m
        x = [a ^ f, c ^ f, b ^ g, d ^ g]
    z = keys[48:]
    out = [mul(x[0], z[0]), (x[2] + z[1]) & m, (x[1] + z[2]) & m,
           mul(x[3], z[3])]
    return b''.join([be(v, 2) for v in out])


def inverse_keys(z, inv):
    out = []
    for r in range(9):
        i = 6 * (8 - r)
        a, b = (1, 2) if r in (0, 8) else (2, 1)
        out += [inv(z[i]), (0x10000 - z[i + a]) & 0xffff,
                (0x10000 - z[i + b]) & 0xffff, inv(z[i + 3])]
        if r < 8:
            out += [z[i - 2], z[i - 1]]
    return out


def h_idea_block(sx, nkey, nblock, way):
    key = sx.bytes('key', nkey) + bytes(bytearray(range(16 - nkey)))
    block = sx.bytes('block', nblock) + bytes(bytearray(8 - nblock))
    if not abstract(sx):
        key = bytes(bytearray(range(16)))
        block = bytes(bytearray(range(8)))
    mul = aidea.mul
    keys = round_keys(key)
    a = aidea.AIDEA(key)
    if way == 'encrypt':
        got = a.encrypt(block)
        want = idea(block, keys, mul)
    else:
        got = a.decrypt(block)
        want = idea(block, inverse_keys(keys, aidea.mul_inv), mul)
    sx.check(sx.eq(bytes(got), want), way)
    sx.reach('end')


# --- cases ---


def cases(tier):
    big = tier == 'thorough'
    out = []
    for name, sizes in (('twofish', (16, 24, 32)), ('camellia', (16, 32)),
                        ('aes', (16, 24)), ('cast', (16,)),
                        ('blowfish', (16,)), ('des3', (24,)),
                        ('idea', (16,))):
        bs = 8 if name in ('cast', 'blowfish', 'des3', 'idea') else 16
        for ksize in sizes:
            first = ksize == sizes[0]
            for mode in (1, 2):
                for n, split in ((0, 0), (bs, bs), (2 * bs, bs),
                                 (3 * bs, 2 * bs)) + (
                                     ((5 * bs, bs),) if big else ()):
                    if first or n == 2 * bs:
                        out.append(('h_mode', dict(name=name, ksize=ksize,
                                                   mode=mode, n=n,
                                                   split=split, seg=None)))
            for mode in (5, 6):
                for n, split in ((0, 0), (1, 1), (bs - 1, 3), (bs, bs),
                                 (bs, 1), (bs + 1, bs), (2 * bs + 3, bs - 1),
                                 (2 * bs + 3, bs + 2), (2 * bs, 2 * bs)) + (
                                     ((5 * bs + 1, 2 * bs + 1),)
                                     if big else ()):
                    if first or n == 2 * bs + 3:
                        out.append(('h_mode', dict(name=name, ksize=ksize,
                                                   mode=mode, n=n,
                                                   split=split, seg=None)))
            for seg in (None, 1, 2, 4, bs // 2, bs) if first else (bs,):
                s = seg or 1
                for n, split in ((0, 0), (s, s), (3 * s, s), (2 * s, s),
                                 ((bs // s + 1) * s, s)) + (
                                     ((5 * bs, 2 * s),) if big else ()):
                    out.append(('h_mode', dict(name=name, ksize=ksize,
                                               mode=3, n=n, split=split,
                                               seg=seg)))
        for what, ns in (('key', (0, 15, 17, 33)), ('iv', (0, bs - 1,
                                                           bs + 1)),
                         ('data', (1, bs - 1, bs + 1)),
                         ('segment', (bs + 1, 2 * bs)),
                         ('counter', (0, bs - 1, bs + 1))):
            for n in ns:
                if what == 'key' and name in ('cast', 'blowfish', 'aes',
                                              'des3'):
                    continue
                if what == 'counter' and name not in ('idea', 'twofish'):
                    continue
                out.append(('h_refuse', dict(name=name, what=what, n=n)))
    for name, mode, n, split, seg in [
            ('twofish', 5, 323, 200, None), ('cast', 3, 320, 64, 8),
            ('camellia', 2, 160, 64, None), ('idea', 6, 163, 64, None),
            ('camellia', 3, 176, 64, 16), ('blowfish', 3, 48, 20, 1),
            ('des3', 6, 403, 200, None), ('aes', 5, 1003, 500, None),
            ('idea', 5, 1003, 500, None), ('twofish', 1, 160, 64, None)]:
        out.append(('h_mode', dict(name=name,
                                   ksize=24 if name == 'des3' else 16,
                                   mode=mode, n=n, split=split, seg=seg)))
    for id_ in (1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13):
        bs = 8 if id_ < 5 else 16
        for sync in (False, True):
            for mode in (2, 3, 5):
                for n in (bs, 3 * bs):
                    out.append(('h_table', dict(id_=id_, mode=mode, n=n,
                                                syncable=sync)))
    out.append(('h_idea_mul', dict(lo=0, hi=0xffff)))
    for way in ('encrypt', 'decrypt'):
        for nkey, nblock in ((16, 8), (0, 8), (16, 0), (0, 0)):
            out.append(('h_idea_block', dict(nkey=nkey, nblock=nblock,
                                             way=way)))
    for lo in (range(0, 65536, 512) if big else (0, 0x8000, 65536 - 128)):
        out.append(('h_idea_inv', dict(lo=lo, hi=lo + (511 if big else
                                                       127))))
    return out
