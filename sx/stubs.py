"""Symbolic stand-ins for the C / third-party libraries python-pgp calls.

* block ciphers   : per (cipher, key) an arbitrary *permutation* of blocks
* hash functions  : an arbitrary *collision free* function of the input bytes
                    (real digests for fully concrete input)
* public keys     : ideal signatures (only what was signed verifies, made with
                    the matching key) and ideal encryption (only what was
                    encrypted to a key decrypts with it)
* zlib            : a real zlib container holding stored blocks
* randomness      : fresh unconstrained bytes

The replay of a counterexample runs against the genuine libraries.
"""
import hashlib
import hmac
import os
import types
import zlib as _zlib

import z3

from sx import core, seq
from sx.core import (SymInt, SymBool, SymFrac, Unsupported, eng, sym_and,
                     sym_or, sym_not, zbool, mkbool)
from sx.seq import SymBytes, SymByteArray, SymStr, mkbytes, byte_items, \
    all_concrete, eq_items, str_items
from sx.instr import FakeModule, PROXIES, int_from_bytes, IO

SITE = '/opt/venv/lib/pypy3.9/site-packages'


def state(name, make=dict):
    pc = eng().path_counter
    if name not in pc:
        pc[name] = make()
    return pc[name]


def counter(name):
    pc = eng().path_counter
    pc[name] = pc.get(name, 0) + 1
    return pc[name]


def items_of(data, what='data'):
    it = byte_items(data)
    if it is None:
        raise TypeError('%s: a bytes-like object is required, not %r'
                        % (what, type(data).__name__))
    return list(it)


def same_el(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return a is b or (
        ((a.lo >= 0 and b.lo >= 0) or (a.lo == b.lo and a.hi == b.hi))
        and a.e.eq(b.e))


def same_items(a, b):
    return len(a) == len(b) and all(same_el(x, y) for x, y in zip(a, b))


def norm(items):
    """Simplified items, so that structural comparison is reliable."""
    out = []
    for i in items:
        if isinstance(i, SymInt):
            e = z3.simplify(i.at(8) if 0 <= i.lo and i.hi <= 255 else i.e)
            if z3.is_bv_value(e):
                i = e.as_long() if i.lo >= 0 else e.as_signed_long()
            else:
                i = SymInt(e, i.lo, i.hi, i.tz)
        out.append(i)
    return out


def fresh(name, n):
    k = counter('fresh:' + name)
    return [SymInt(z3.BitVec('%s#%d[%d]' % (name, k, i), 8), 0, 255)
            for i in range(n)]


def axiom(c):
    """c holds by definition of a stub (never restricts the inputs)."""
    if c is True:
        return
    if c is False:
        raise Unsupported('stub axiom is false')
    eng().axiom(zbool(c))


def iff(a, b):
    if isinstance(a, bool):
        return b if a else sym_not(b)
    if isinstance(b, bool):
        return a if b else sym_not(a)
    return mkbool(a.e == b.e)


def implies(a, b):
    return sym_or(sym_not(a), b)


# ------------------------------------------------------------------ hashes

_REAL = {'MD5': 'md5', 'SHA': 'sha1', 'RIPEMD': 'ripemd160',
         'SHA224': 'sha224', 'SHA256': 'sha256', 'SHA384': 'sha384',
         'SHA512': 'sha512'}
_SIZE = {'MD5': 16, 'SHA': 20, 'RIPEMD': 20, 'SHA224': 28, 'SHA256': 32,
         'SHA384': 48, 'SHA512': 64}


def _real_digest(alg, data):
    try:
        return list(hashlib.new(_REAL[alg], data).digest())
    except ValueError:
        return None


def digest_of(alg, items):
    items = norm(items)
    table = state('hash:' + alg, list)
    for x, y in table:
        if same_items(x, items):
            return y
    out = None
    if all_concrete(items):
        out = _real_digest(alg, bytes(items))
    if out is None:
        out = fresh('h' + alg, _SIZE[alg])
    for x, y in table:
        if all_concrete(x) and all_concrete(items):
            continue
        axiom(iff(eq_items(x, items), eq_items(y, out)))
    table.append((items, out))
    return out


class Hash(object):
    def __init__(self, alg, data=b''):
        self._alg = alg
        self._d = []
        self.digest_size = _SIZE[alg]
        self.name = alg
        self.oid = ('oid', alg)
        self.block_size = 128 if alg in ('SHA384', 'SHA512') else 64
        if data is not None and len(data):
            self.update(data)

    def update(self, data):
        if isinstance(data, (str, SymStr)):
            raise TypeError("can't hash str")
        self._d.extend(items_of(data, 'hash update'))

    def digest(self):
        return mkbytes(digest_of(self._alg, self._d))

    def hexdigest(self):
        from sx.instr import hexlify
        return seq.mkstr(list(byte_items(hexlify(self.digest()))))

    def copy(self):
        h = Hash(self._alg)
        h._d = list(self._d)
        return h

    def new(self, data=b''):
        return Hash(self._alg, data)


def hash_module(alg):
    m = FakeModule('Crypto.Hash.' + alg, types.ModuleType('x'),
                   new=lambda data=b'': Hash(alg, data),
                   digest_size=_SIZE[alg])
    return m


# ------------------------------------------------------------ block ciphers

def perm(name, key, block, direction):
    """The permutation selected by (name, key), or its inverse."""
    key, block = norm(key), norm(block)
    table = state('perm:' + name, list)
    here, there = (1, 2) if direction == 'e' else (2, 1)
    for entry in table:
        if same_items(entry[0], key) and same_items(entry[here], block):
            return entry[there]
    out = fresh('b' + name, len(block))
    new = (key, block, out) if direction == 'e' else (key, out, block)
    for k, p, c in table:
        keq = eq_items(k, key)
        if keq is False:
            continue
        axiom(implies(keq, iff(eq_items(p, new[1]), eq_items(c, new[2]))))
    table.append(new)
    return out


class RawCipher(object):
    """What Crypto.Cipher._XXX.new returns."""

    def __init__(self, spec, key, mode=1, IV=None, counter=None,
                 segment_size=0):
        if isinstance(key, (str, SymStr)) or byte_items(key) is None:
            raise TypeError('argument 1 must be read-only bytes')
        if isinstance(key, SymByteArray):
            raise TypeError('argument 1 must be read-only pinned buffer, '
                            'not bytearray')
        if isinstance(IV, SymByteArray):
            raise TypeError('argument IV must be read-only pinned buffer, '
                            'not bytearray')
        if mode is None:
            raise TypeError('an integer is required')
        if mode < 1 or mode > 6:
            raise ValueError('Unknown cipher feedback mode %i' % mode)
        if mode == 4:
            raise ValueError('MODE_PGP is not supported anymore')
        self._key = items_of(key)
        if len(self._key) not in spec.keys:
            raise ValueError('key length %d' % len(self._key))
        self.block_size = spec.block_size
        iv = items_of(IV) if IV is not None else []
        if mode == 1 and iv:
            pass        # pycrypto 2.6.1 ignores it
        if mode == 6 and iv:
            raise ValueError('CTR mode needs counter parameter, not IV')
        if len(iv) != self.block_size and mode not in (1, 6):
            raise ValueError('IV must be %d bytes long' % self.block_size)
        if mode == 3:
            if segment_size == 0:
                segment_size = 8
            if segment_size < 1 or segment_size > self.block_size * 8 or \
                    segment_size & 7:
                raise ValueError('segment_size must be multiple of 8')
        if mode == 6 and counter is None:
            raise TypeError("'counter' keyword parameter is required")
        if mode != 6 and counter is not None:
            raise ValueError("'counter' parameter only useful with CTR mode")
        self.mode = mode
        self.segment_size = segment_size
        self._spec = spec
        self._iv = iv
        self._left = []
        self._counter = counter

    @property
    def IV(self):
        return mkbytes(self._iv)

    def _e(self, b):
        return perm(self._spec.name, self._key, b, 'e')

    def _d(self, b):
        return perm(self._spec.name, self._key, b, 'd')

    def _stream(self, data):
        out = []
        for b in data:
            if not self._left:
                if self.mode == 5:
                    self._iv = self._e(self._iv)
                    self._left = list(self._iv)
                else:
                    self._left = list(self._e(items_of(self._counter())))
            out.append(b ^ self._left.pop(0))
        return mkbytes(out)

    def _sizes(self, data):
        bs = self.block_size
        if len(data) % bs and self.mode in (1, 2):
            raise ValueError('Input strings must be a multiple of %d in '
                             'length' % bs)
        if self.mode == 3 and len(data) % (self.segment_size // 8):
            raise ValueError('Input strings must be a multiple of the '
                             'segment size')

    def _crypt(self, data, enc):
        if isinstance(data, SymByteArray):
            raise TypeError('argument must be read-only pinned buffer, '
                            'not bytearray')
        data = items_of(data, 'cipher input')
        self._sizes(data)
        bs = self.block_size
        if self.mode in (5, 6):
            return self._stream(data)
        out = []
        if self.mode == 3:
            n = self.segment_size // 8
            for i in range(0, len(data), n):
                ks = self._e(self._iv)
                blk = [a ^ b for a, b in zip(data[i:i + n], ks)]
                self._iv = self._iv[n:] + (blk if enc else data[i:i + n])
                out.extend(blk)
            return mkbytes(norm(out))
        for i in range(0, len(data), bs):
            b = data[i:i + bs]
            if self.mode == 1:
                out.extend(self._e(b) if enc else self._d(b))
            elif enc:
                self._iv = self._e([x ^ y for x, y in zip(b, self._iv)])
                out.extend(self._iv)
            else:
                out.extend([x ^ y for x, y in zip(self._d(b), self._iv)])
                self._iv = b
        return mkbytes(norm(out))

    def encrypt(self, data):
        return self._crypt(data, True)

    def decrypt(self, data):
        return self._crypt(data, False)


class Spec(object):
    def __init__(self, name, block_size, keys):
        self.name = name
        self.block_size = block_size
        self.keys = keys


SPECS = {
    'AES': Spec('AES', 16, (16, 24, 32)),
    'Blowfish': Spec('Blowfish', 8, tuple(range(4, 57))),
    'DES3': Spec('DES3', 8, (16, 24)),
    'CAST': Spec('CAST', 8, tuple(range(5, 17))),
}


def cipher_module(name, load_blockalgo):
    spec = SPECS[name]
    raw = types.SimpleNamespace(
        new=lambda key, mode=1, IV=None, counter=None, segment_size=0:
            RawCipher(spec, key, mode, IV, counter, segment_size),
        block_size=spec.block_size, key_size=spec.keys)

    def new(key, *a, **k):
        ba = load_blockalgo()
        cls = type(name + 'Cipher', (ba.BlockAlgo,), {})
        obj = cls.__new__(cls)
        ba.BlockAlgo.__init__(obj, raw, key, *a, **k)
        return obj
    ks = spec.keys if name in ('AES', 'DES3') else range(spec.keys[0],
                                                         spec.keys[-1] + 1)
    m = FakeModule('Crypto.Cipher.' + name, types.ModuleType('x'), new=new,
                   block_size=spec.block_size, key_size=ks,
                   MODE_ECB=1, MODE_CBC=2, MODE_CFB=3, MODE_PGP=4,
                   MODE_OFB=5, MODE_CTR=6, MODE_OPENPGP=7)
    return m


class CamCrypt(object):
    def __init__(self, libraryPath=None):
        pass

    def keygen(self, bits, key):
        if bits not in (128, 192, 256):
            raise Exception('keyBitLength must be 128, 192, or 256')
        if not 0 < len(key) <= bits / 8:
            raise Exception('rawKey must be less than or equal')
        self._k = items_of(key)
        self._n = 'Camellia%d' % bits

    def _go(self, data, d):
        if len(data) != 16:
            raise Exception('encryption and decryption only occur on blocks')
        if isinstance(data, SymByteArray):
            raise TypeError('wrong type')
        return mkbytes(perm(self._n, self._k, items_of(data), d))

    def encrypt(self, data):
        return self._go(data, 'e')

    def decrypt(self, data):
        return self._go(data, 'd')


class Twofish(object):
    def __init__(self, key):
        if not 0 < len(key) <= 32:
            raise ValueError('invalid key length')
        if not isinstance(key, (bytes, SymBytes)):
            raise TypeError('can not encrypt/decrypt unicode objects')
        self._k = items_of(key)

    def _go(self, data, d):
        if len(data) != 16:
            raise ValueError('invalid block length')
        if not isinstance(data, (bytes, SymBytes)):
            raise TypeError('can not encrypt/decrypt unicode objects')
        return mkbytes(perm('Twofish', self._k, items_of(data), d))

    def encrypt(self, data):
        return self._go(data, 'e')

    def decrypt(self, data):
        return self._go(data, 'd')


# ------------------------------------------------------------------- random

def random_bytes(n):
    if isinstance(n, (SymInt,)):
        n = n.concretize()
    if isinstance(n, float):
        n = int(n)
    k = counter('rnd:%d' % n)
    name = 'rnd%d#%d' % (n, k)
    items = [SymInt(z3.BitVec('%s[%d]' % (name, i), 8), 0, 255)
             for i in range(n)]
    eng().declare(name, ('bytes', items))
    state('rnds', list).append(items)
    return mkbytes(items)


def distinct_random():
    """Assumes that no two reads of as much randomness were the same."""
    reads = state('rnds', list)
    for i, a in enumerate(reads):
        for b in reads[:i]:
            if a and len(a) == len(b):
                axiom(sym_not(eq_items(a, b)))


class _Rng(object):
    def read(self, n):
        return random_bytes(n)


class StrongRandom(object):
    def __init__(self, *a, **k):
        pass

    def randint(self, a, b):
        # only used as a secret exponent: all that matters is whether it is
        # fresh
        return max(a, 3) + counter('strong')

    def randrange(self, *a):
        return 3 + counter('strong')

    def choice(self, s):
        return s[0]


# -------------------------------------------------------------- public keys

def _keq(a, b):
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        if x is y:
            continue
        c = x == y
        if c is False:
            return False
        out.append(c)
    return sym_and(*out) if out else True


def _bits(n):
    return n.bit_length() if isinstance(n, int) else conc(n.bit_length())


def conc(v):
    return v.concretize() if isinstance(v, SymInt) else v


class PubKey(object):
    """kind; pub: public numbers; priv: private numbers or None"""

    def __init__(self, kind, pub, priv):
        self.kind = kind
        self.pub = tuple(pub)
        self.priv = priv

    def has_private(self):
        return self.priv is not None

    def can_encrypt(self):
        return self.kind != 'dsa'

    def can_sign(self):
        return True

    def publickey(self):
        return type(self)(self.kind, self.pub, None)

    def _k(self):
        return (_bits(self.pub[0]) + 7) // 8

    def size(self):
        return _bits(self.pub[0]) - 1

    def __getattr__(self, name):
        if name.startswith('__') or name in ('pub', 'priv', 'kind'):
            raise AttributeError(name)
        names = {'rsa': ('n', 'e'), 'dsa': ('y', 'g', 'p', 'q'),
                 'elg': ('p', 'g', 'y')}[self.kind]
        if name in names:
            return self.pub[names.index(name)]
        if self.priv:
            pn = {'rsa': ('d', 'p', 'q', 'u'), 'dsa': ('x',),
                  'elg': ('x',)}[self.kind]
            if name in pn and pn.index(name) < len(self.priv):
                return self.priv[pn.index(name)]
        raise AttributeError(name)

    # DSA / ElGamal raw interfaces
    def sign(self, m, k):
        if self.priv is None:
            raise TypeError('Private key not available in this object')
        m = _as_num(m)
        r = self._exponent(k)
        s = _fresh_num('sigs', self._group())
        state('sigs', list).append((self.kind, self.pub, m, (r, s)))
        return (r, s)

    def _exponent(self, k):
        """g ** k: fixed by k, and different for different k."""
        if k == 0:
            return 1
        known = state('exponents', list)
        mine = [e for e in known if e[:2] == (self.kind, self.pub)]
        for e in mine:
            if e[2] is k or (type(k) is int and type(e[2]) is int and
                             e[2] == k):
                return e[3]
        r = _fresh_num('exp', self._group())
        axiom(r != 1)
        for e in mine:
            axiom(iff(e[2] == k, r == e[3]))
        known.append((self.kind, self.pub, k, r))
        return r

    def _group(self):
        return self.pub[3] if self.kind == 'dsa' else self.pub[0]

    def verify(self, m, values):
        m = _as_num(m)
        values = tuple(values)
        res = []
        for kind, pub, m2, vals in state('sigs', list):
            if kind == self.kind and len(vals) == len(values):
                res.append(sym_and(_keq(pub, self.pub), _numeq(m, m2),
                                   _keq(vals, values)))
        return sym_or(*res) if res else False

    # raw encryption (ElGamal in this code base)
    def encrypt(self, m, k):
        mi = norm(items_of(m)) if byte_items(m) is not None else None
        if mi is None:
            raise Unsupported('number encryption')
        a = self._exponent(conc(k))
        if conc(k) == 0:
            b = _as_num(m)
        else:
            b = _fresh_num('ctb', self.pub[0])
        wid = (_bits(self.pub[0]) + 7) // 8
        out = (_num_bytes(a, wid), _num_bytes(b, wid))
        state('enc', list).append((self.kind, self.pub, mi, (a, b)))
        return out

    def decrypt(self, ct):
        if self.priv is None:
            raise TypeError('Private key not available in this object')
        vals = tuple(_as_num(c) for c in ct)
        for kind, pub, m, v in state('enc', list):
            if kind == self.kind and bool(_keq(pub, self.pub)) and \
                    bool(_keq(v, vals)):
                # long_to_bytes drops leading zeros
                m = list(m)
                while m and bool(seq.eq_el(m[0], 0)):
                    m.pop(0)
                return mkbytes(m)
        nums = vals + self.pub + tuple(self.priv)
        if all(isinstance(v, int) for v in nums):
            p, x = self.pub[0], self.priv[0]
            return long_to_bytes(vals[1] * pow(vals[0], p - 1 - x, p) % p)
        # with another key than it was encrypted to: not a block of PKCS#1
        # (see the assumptions)
        junk = hashlib.sha512(b'junk%d' % counter('junk')).digest()
        return mkbytes([0x55] + list((junk * 9)[:self._k() - 2]))


def _num_bytes(v, wid):
    """long_to_bytes of a ranged symbolic number: canonical, no leading 0"""
    return NumBytes(v, wid)


def NumBytes(v, wid):
    return long_to_bytes(v)


TOKEN_ZEROS = (0, 1, 9, 17)


def _fresh_num(name, below):
    """A ciphertext, or a number of a signature. What it is tells nothing: it
    is unlike any other, its last octet and how many of its leading bits are
    zero may be anything (see the assumptions)."""
    below = conc(below)
    k = counter('num:' + name)
    bits = below.bit_length() - 1
    if bits < 33:
        e = z3.BitVec('%s#%d' % (name, k), bits + 1)
        v = SymInt(e, 0, (1 << (bits + 1)) - 1)
        axiom(sym_and(v >= 1, v < below))
        return SymInt(e, 1, below - 1)
    zeros = 0
    n = counter('num')
    if n < 3:
        some = TOKEN_ZEROS if n == 1 else TOKEN_ZEROS[::2]
        which = core.fresh_int('zeros#%d' % n, 0, len(some) - 1)
        for i, z in enumerate(some):
            if i == len(some) - 1 or bool(which == i):
                zeros = z
                break
    if zeros == 0 and (0x81 << (bits - 7)) < below:
        bits += 1
    bits -= zeros
    seed = b''
    i = 0
    while len(seed) * 8 < bits:
        seed += hashlib.sha512(('%s/%d/%d' % (name, k, i)).encode()).digest()
        i += 1
    v = int.from_bytes(seed, 'big') & ((1 << (bits - 16)) - 1)
    v = (v | (1 << (bits - 9))) << 8
    last = core.fresh_int('last:%s#%d' % (name, k), 0, 255)
    assert v + 255 < below
    return last + v


def _as_num(m):
    if byte_items(m) is not None:
        return int_from_bytes(m)
    return m


def _numeq(a, b):
    r = a == b
    return r


def rsa_construct(tup, *a):
    tup = tuple(tup)
    if len(tup) < 2:
        raise ValueError('invalid RSA tuple')
    return PubKey('rsa', tup[:2], tup[2:] or None)


def dsa_construct(tup):
    tup = tuple(tup)
    if len(tup) not in (4, 5):
        raise ValueError('argument for construct() wrong length')
    return PubKey('dsa', tup[:4], tup[4:] or None)


def elg_construct(tup):
    tup = tuple(tup)
    if len(tup) not in (3, 4):
        raise ValueError('argument for construct() wrong length')
    return PubKey('elg', tup[:3], tup[3:] or None)


class SigScheme(object):
    def __init__(self, key):
        self._key = key

    def can_sign(self):
        return self._key.has_private()

    def sign(self, mhash):
        key = self._key
        if not key.has_private():
            raise TypeError('Private key not available in this object')
        n = conc(key.pub[0])
        k = (n.bit_length() + 7) // 8
        if k < mhash.digest_size + 11 + 15:
            raise ValueError('Selected hash algorith has a too long digest')
        d = norm(items_of(mhash.digest()))
        for alg, pub, dig, s in state('rsasig', list):
            if alg == mhash.name and same_items(list(pub), list(key.pub)) \
                    and same_items(dig, d):
                return mkbytes(s)
        v = _fresh_num('rsas', n)
        items = [(v >> (8 * (k - 1 - i))) & 0xff for i in range(k)]
        for alg, pub, dig, s in state('rsasig', list):
            if alg == mhash.name:
                axiom(implies(_keq(pub, key.pub),
                              iff(eq_items(dig, d), eq_items(s, items))))
        state('rsasig', list).append((mhash.name, key.pub, d, items))
        return mkbytes(items)

    def verify(self, mhash, S):
        key = self._key
        k = key._k()
        S = items_of(S)
        if len(S) != k:
            return 0
        d = items_of(mhash.digest())
        res = []
        for alg, pub, dig, s in state('rsasig', list):
            if alg == mhash.name:
                res.append(sym_and(_keq(pub, key.pub), eq_items(dig, d),
                                   eq_items(s, S)))
        return sym_or(*res) if res else False


def emsa_encode(hash_, emLen):
    # the digest info: a tagged digest (stands for the DER encoding)
    tag = sorted(_SIZE).index(hash_.name)
    info = [0x30, tag] + [0] * 13 + items_of(hash_.digest())
    if emLen < len(info) + 11:
        raise ValueError('Selected hash algorith has a too long digest')
    return mkbytes([0, 1] + [0xff] * (emLen - len(info) - 3) + [0] + info)


class PKCS115_Cipher(object):
    def __init__(self, key):
        self._key = key

    def encrypt(self, message):
        key = self._key
        n = conc(key.pub[0])
        k = (n.bit_length() + 7) // 8
        m = norm(items_of(message))
        if len(m) > k - 11:
            raise ValueError('Plaintext is too long.')
        v = _fresh_num('rsac', n)
        items = [(v >> (8 * (k - 1 - i))) & 0xff for i in range(k)]
        state('rsaenc', list).append((key.pub, m, items))
        return mkbytes(items)

    def decrypt(self, ct, sentinel):
        key = self._key
        k = key._k()
        ct = items_of(ct)
        if len(ct) != k:
            raise ValueError('Ciphertext with incorrect length.')
        if not key.has_private():
            raise TypeError('No private key')
        for pub, m, c in state('rsaenc', list):
            if bool(sym_and(_keq(pub, key.pub), eq_items(c, ct))):
                return mkbytes(m)
        if all_concrete(ct) and isinstance(key.pub[0], int) and \
                isinstance(key.priv[0], int):
            m = pow(int.from_bytes(bytes(ct), 'big'), key.priv[0],
                    key.pub[0]).to_bytes(k, 'big')
            end = m.find(b'\x00', 2)
            if m[:2] == b'\x00\x02' and end >= 10:
                return m[end + 1:]
        return sentinel


def bytes_to_long(s):
    if isinstance(s, (str, SymStr)):
        raise TypeError('bytes required')
    return int_from_bytes(s)


def long_to_bytes(n, blocksize=0):
    if isinstance(n, SymBool):
        n = n._int()
    if isinstance(n, int):
        length = max(1, (n.bit_length() + 7) // 8)
        r = list(n.to_bytes(length, 'big'))
    else:
        bl = (n.bit_length() + 7) >> 3
        length = max(1, conc(bl))
        r = [(n >> (8 * (length - 1 - i))) & 0xff for i in range(length)]
    if blocksize > 0 and len(r) % blocksize:
        r = [0] * (blocksize - len(r) % blocksize) + r
    return mkbytes(r)


def GCD(a, b):
    while a:
        a, b = b % a, a
    return b


# --------------------------------------------------------------------- zlib

class ZError(Exception):
    pass


def _adler(items):
    return digest_of_adler(items)


def digest_of_adler(items):
    items = norm(items)
    if all_concrete(items):
        return list(_zlib.adler32(bytes(items)).to_bytes(4, 'big'))
    table = state('adler', list)
    for x, y in table:
        if same_items(x, items):
            return y
    out = fresh('adler', 4)
    for x, y in table:
        axiom(implies(eq_items(x, items), eq_items(y, out)))
    table.append((items, out))
    return out


class CompressObj(object):
    """zlib stream made of stored blocks (what level 0 produces)."""
    raw = False

    def __init__(self, level=-1, method=8, wbits=15, *a, **k):
        if level is not None and not isinstance(level, int):
            raise TypeError('an integer is required')
        if level is None:
            raise TypeError("'NoneType' object cannot be interpreted as an "
                            "integer")
        if level < -1 or level > 9:
            raise ValueError('Invalid initialization option')
        self._raw = wbits < 0
        self._d = []
        self._done = False

    def compress(self, data):
        if self._done:
            raise ZError('inconsistent stream state')
        self._d.extend(items_of(data))
        return b''

    def flush(self, mode=4):
        if mode != 4:
            raise Unsupported('zlib flush mode')
        if self._done:
            raise ZError('inconsistent stream state')
        self._done = True
        body = []
        at = 0
        while True:
            part = self._d[at:at + 65535]
            at += len(part)
            n = len(part)
            body += [1 if at == len(self._d) else 0, n & 0xff, n >> 8,
                     (n & 0xff) ^ 0xff, (n >> 8) ^ 0xff]
            body += part
            if at == len(self._d):
                break
        if self._raw:
            return mkbytes(body)
        return mkbytes([0x78, 0x9c] + body + digest_of_adler(self._d))

    def copy(self):
        raise Unsupported('zlib copy')


class DecompressObj(object):
    def __init__(self, wbits=15, *a, **k):
        self._raw = wbits < 0
        self._in = []
        self._pos = 0
        self._out = []
        self._state = 'block' if self._raw else 'head'
        self._final = False
        self.eof = False
        self.unused_data = b''
        self.unconsumed_tail = b''

    def decompress(self, data, max_length=0):
        self._in.extend(items_of(data))
        out = []
        while True:
            left = self._in[self._pos:]
            if self._state == 'head':
                if len(left) < 2:
                    break
                ok = sym_and(seq.eq_el(left[0], 0x78),
                             ((left[0] << 8) + left[1]) % 31 == 0,
                             (left[1] & 0x20) == 0)
                if not bool(ok):
                    raise ZError('incorrect header check')
                self._pos += 2
                self._state = 'block'
            elif self._state == 'block':
                if not left:
                    break
                if not all_concrete(left[:1]):
                    raise Unsupported('symbolic deflate block header')
                if left[0] not in (0, 1):
                    raise Unsupported('compressed deflate block')
                if len(left) < 5:
                    break
                if not all_concrete(left[:5]):
                    raise Unsupported('symbolic deflate block header')
                n = left[1] | left[2] << 8
                if n ^ 0xffff != left[3] | left[4] << 8:
                    raise ZError('invalid stored block lengths')
                self._final = left[0] == 1
                self._need = n
                self._pos += 5
                self._state = 'data'
            elif self._state == 'data':
                take = left[:self._need]
                out.extend(take)
                self._out.extend(take)
                self._pos += len(take)
                self._need -= len(take)
                if self._need:
                    break
                if not self._final:
                    self._state = 'block'
                else:
                    self._state = 'end' if self._raw else 'adler'
            elif self._state == 'adler':
                if len(left) < 4:
                    break
                if not bool(eq_items(left[:4], digest_of_adler(self._out))):
                    raise ZError('incorrect data check')
                self._pos += 4
                self._state = 'end'
            else:
                self.eof = True
                self.unused_data = mkbytes(left)
                break
        return mkbytes(out)

    def flush(self, *a):
        return b''


def zlib_module():
    def compress(data, level=-1):
        c = CompressObj(level)
        c.compress(data)
        return c.flush()

    def decompress(data, wbits=15, bufsize=0):
        d = DecompressObj(wbits)
        r = d.decompress(data)
        if not d.eof:
            raise ZError('incomplete or truncated stream')
        return r

    def crc32(data, value=0):
        raise Unsupported('crc32')
    return FakeModule('zlib', _zlib, compressobj=CompressObj,
                      decompressobj=DecompressObj, compress=compress,
                      decompress=decompress, error=ZError, crc32=crc32)


class BZ2Compressor(object):
    def __init__(self, level=9):
        if not isinstance(level, int):
            raise TypeError("'NoneType' object cannot be interpreted as an "
                            "integer")
        if not 1 <= level <= 9:
            raise ValueError('compresslevel must be between 1 and 9')
        self._d = []

    def compress(self, data):
        self._d.extend(items_of(data))
        return b''

    def flush(self):
        n = len(self._d)
        return mkbytes([0x42, 0x5a, 0x68] + list(n.to_bytes(4, 'big')) +
                       self._d)


class BZ2Decompressor(object):
    def __init__(self):
        self._in = []
        self._pos = 0
        self.eof = False
        self.unused_data = b''

    def decompress(self, data, max_length=-1):
        if self.eof:
            raise EOFError('End of stream already reached')
        self._in.extend(items_of(data))
        if len(self._in) < 7:
            return b''
        if not all_concrete(self._in[:7]):
            raise Unsupported('symbolic bzip2 stream')
        if self._in[:3] != [0x42, 0x5a, 0x68]:
            raise OSError('Invalid data stream')
        n = int.from_bytes(bytes(self._in[3:7]), 'big')
        start = 7 + self._pos
        out = self._in[start:7 + n]
        self._pos += len(out)
        if self._pos == n:
            self.eof = True
            self.unused_data = mkbytes(self._in[7 + n:])
        return mkbytes(out)


def bz2_module():
    import bz2

    def compress(data, compresslevel=9):
        c = BZ2Compressor(compresslevel)
        c.compress(data)
        return c.flush()

    def decompress(data):
        return BZ2Decompressor().decompress(data)
    return FakeModule('bz2', bz2, BZ2Compressor=BZ2Compressor,
                      BZ2Decompressor=BZ2Decompressor, compress=compress,
                      decompress=decompress)


# ------------------------------------------------------- other third parties

class _Any(object):
    def __call__(self, *a, **k):
        return self

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return self


def zope_interface():
    class Interface(object):
        pass

    def Attribute(*a, **k):
        return None

    def implementer(*i):
        return lambda cls: cls
    return types.SimpleNamespace(Interface=Interface, Attribute=Attribute,
                                 implementer=implementer,
                                 provider=implementer)


def six_module():
    def add_metaclass(meta):
        def wrap(cls):
            d = dict(cls.__dict__)
            d.pop('__dict__', None)
            d.pop('__weakref__', None)
            return meta(cls.__name__, cls.__bases__, d)
        return wrap
    return FakeModule('six', types.ModuleType('six'), PY2=False, PY3=True,
                      text_type=PROXIES['str'],
                      binary_type=PROXIES['bytes'],
                      string_types=(PROXIES['str'],),
                      integer_types=(PROXIES['int'],),
                      add_metaclass=add_metaclass,
                      b=lambda s: s.encode('latin-1'), u=lambda s: s,
                      iteritems=lambda d: iter(d.items()),
                      itervalues=lambda d: iter(d.values()),
                      BytesIO=IO.BytesIO,
                      int2byte=lambda i: mkbytes([i]),
                      indexbytes=lambda b, i: b[i])


def magic_from_buffer(data, mime=False):
    """libmagic reduced to the JPEG signature"""
    it = items_of(data)
    if len(it) >= 3 and bool(eq_items(it[:3], [0xff, 0xd8, 0xff])):
        return 'image/jpeg' if mime else 'JPEG image data'
    return 'application/octet-stream' if mime else 'data'


class Session(object):
    """requests.Session; harnesses replace its request method, as they do
    with the real one in replays"""

    def __init__(self):
        self.headers = {}
        self.params = {}
        self.verify = True

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False

    def close(self):
        pass

    def request(self, method, url, **kw):
        raise Unsupported('HTTP request')

    def get(self, url, **kw):
        return self.request('GET', url, **kw)

    def post(self, url, data=None, json=None, **kw):
        return self.request('POST', url, data=data, json=json, **kw)


class HTTPError(IOError):
    pass


def requests_module(ns):
    def request(method, url, **kw):
        with Session() as s:
            return s.request(method=method, url=url, **kw)
    exc = dict(HTTPError=HTTPError, RequestException=IOError,
               ConnectionError=IOError, Timeout=IOError)
    ns('requests.sessions', Session=Session)
    ns('requests.exceptions', **exc)
    ns('requests', Session=Session, session=Session, request=request,
       get=lambda url, params=None, **kw: request(
           'GET', url, params=params, **kw),
       post=lambda url, data=None, json=None, **kw: request(
           'POST', url, data=data, json=json, **kw),
       HTTPError=HTTPError, RequestException=IOError, __path__=[])


def url_module(loader, ns):
    """urllib.parse with percent encoding of symbolic text"""
    import urllib.error
    import urllib.parse
    here = os.path.dirname(os.path.abspath(__file__))
    model = loader.exec_file(os.path.join(here, 'lib', 'urlquote.py'),
                             'urlquote')

    def both(name):
        real = getattr(urllib.parse, name)
        ours = getattr(model, name)

        def go(*a, **k):
            try:
                plain = all(type(x) in (str, bytes) for x in a)
            except TypeError:
                plain = False
            return (real if plain else ours)(*a, **k)
        return go
    names = dict(vars(urllib.parse))
    for name in ('quote', 'unquote', 'unquote_to_bytes', 'unquote_plus',
                 'quote_from_bytes', 'quote_plus', 'urlencode', 'parse_qsl'):
        names[name] = both(name)
    ns('urllib.parse', **names)
    ns('urllib.error', **vars(urllib.error))
    ns('urllib', error=urllib.error, __path__=[])


def build(loader):
    """Install the stubs in a Loader."""
    loader.roots.setdefault('Crypto', os.path.join(SITE, 'Crypto'))
    over = loader.over

    def ns(name, **attrs):
        m = types.ModuleType(name)
        m.__dict__.update(attrs)
        over[name] = m
        return m

    def blockalgo():
        return loader.load('Crypto.Cipher.blockalgo')
    for alg in _REAL:
        over['Crypto.Hash.' + alg] = hash_module(alg)
    ns('Crypto.Hash', **{a: over['Crypto.Hash.' + a] for a in _REAL})
    names = {v: k for k, v in _REAL.items()}

    def new_hash(name, data=b'', **kw):
        if name.lower() not in names:
            raise ValueError('unsupported hash type ' + name)
        return Hash(names[name.lower()], data)
    over['hashlib'] = FakeModule('hashlib', hashlib, new=new_hash, **{
        n: (lambda data=b'', alg=a, **kw: Hash(alg, data))
        for n, a in names.items()})
    over['hmac'] = FakeModule('hmac', hmac, compare_digest=lambda a, b: a == b)
    for c in SPECS:
        over['Crypto.Cipher.' + c] = cipher_module(c, blockalgo)
    ns('Crypto.Cipher.PKCS1_v1_5', PKCS115_Cipher=PKCS115_Cipher,
       new=PKCS115_Cipher)
    ns('Crypto.Signature.PKCS1_v1_5', new=SigScheme,
       PKCS115_SigScheme=SigScheme, EMSA_PKCS1_V1_5_ENCODE=emsa_encode)
    ns('Crypto.Signature', PKCS1_v1_5=over['Crypto.Signature.PKCS1_v1_5'])
    ns('Crypto.PublicKey.RSA', construct=rsa_construct)
    ns('Crypto.PublicKey.DSA', construct=dsa_construct)
    ns('Crypto.PublicKey.ElGamal', construct=elg_construct)
    ns('Crypto.PublicKey', RSA=over['Crypto.PublicKey.RSA'],
       DSA=over['Crypto.PublicKey.DSA'],
       ElGamal=over['Crypto.PublicKey.ElGamal'])
    rnd = ns('Crypto.Random.random', StrongRandom=StrongRandom,
             randint=StrongRandom().randint,
             randrange=StrongRandom().randrange)
    ns('Crypto.Random', new=lambda *a, **k: _Rng(), random=rnd,
       get_random_bytes=random_bytes)
    ns('Crypto.Util.number', bytes_to_long=bytes_to_long,
       long_to_bytes=long_to_bytes, GCD=GCD,
       size=lambda n: _bits(n), inverse=lambda a, n: pow(a, -1, n))
    ns('camcrypt', CamCrypt=CamCrypt, __path__=['/nonexistent'])
    ns('twofish', Twofish=Twofish)
    zi = zope_interface()
    ns('zope.interface', **vars(zi))
    ns('zope', interface=over['zope.interface'])
    over['six'] = six_module()
    ns('magic', from_buffer=magic_from_buffer)
    requests_module(ns)
    url_module(loader, ns)
    ns('chardet', detect=lambda d: {'encoding': 'utf-8', 'confidence': 1})
    ns('pkg_resources', get_distribution=lambda n: types.SimpleNamespace(
        version='0.0', project_name=n))
    tags = {2: 'Signature'}
    ns('pgpdump.packet', SignaturePacket=type('SignaturePacket', (), {}),
       TAG_TYPES=tags)
    ns('pgpdump', packet=over['pgpdump.packet'])
    over['zlib'] = zlib_module()
    over['bz2'] = bz2_module()
    return loader
