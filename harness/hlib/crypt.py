"""Reference ciphers, modes and string-to-key functions."""
from Crypto.Cipher import AES, Blowfish, CAST, DES3
import camcrypt
import twofish as twofish_impl
from pgp.cipher import aidea
from hlib.util import be

# algorithm ID: (library, block size, key size)
CIPHERS = {1: ('idea', 8, 16), 2: (DES3, 8, 24), 3: (CAST, 8, 16),
           4: (Blowfish, 8, 16), 7: (AES, 16, 16), 8: (AES, 16, 24),
           9: (AES, 16, 32), 10: ('twofish', 16, 32),
           11: ('camellia', 16, 16), 12: ('camellia', 16, 24),
           13: ('camellia', 16, 32)}
HASHES = {1: ('md5', 16), 2: ('sha1', 20), 3: ('ripemd160', 20),
          8: ('sha256', 32), 9: ('sha384', 48), 10: ('sha512', 64),
          11: ('sha224', 28)}


def block_cipher(alg, key):
    """The function that encrypts one block."""
    lib = CIPHERS[alg][0]
    key = bytes(key)
    if lib == 'idea':
        impl = aidea.AIDEA(key)
    elif lib == 'twofish':
        impl = twofish_impl.Twofish(key)
    elif lib == 'camellia':
        from pgp.cipher import camcrypt_kwargs
        impl = camcrypt.CamCrypt(**camcrypt_kwargs)
        impl.keygen(len(key) * 8, key)
    else:
        impl = lib.new(key, 1)
    return lambda block: bytes(bytearray(impl.encrypt(bytes(block))))


def xor(a, b):
    return bytes(bytearray([x ^ y for x, y in zip(bytearray(a),
                                                  bytearray(b))]))


def cfb(alg, key, iv, data, decrypt=False):
    """Cipher feedback over whole blocks (the last one may be short)."""
    e = block_cipher(alg, key)
    n = CIPHERS[alg][1]
    out = b''
    for i in range(0, len(data), n):
        part = data[i:i + n]
        c = xor(part, e(iv))
        out += c
        iv = part if decrypt else c
    return out


def encrypt_data(alg, key, prefix, check, data, resync):
    """RFC 4880 sections 5.7 and 5.13: a random prefix of one block, its two
    last octets again, then the data."""
    n = CIPHERS[alg][1]
    zero = bytes(bytearray(n))
    if not resync:
        return cfb(alg, key, zero, prefix + check + data)
    first = cfb(alg, key, zero, prefix + check)
    return first + cfb(alg, key, first[2:], data)


def decrypt_data(alg, key, data, resync):
    n = CIPHERS[alg][1]
    zero = bytes(bytearray(n))
    if not resync:
        return cfb(alg, key, zero, data, True)
    first = data[:n + 2]
    return cfb(alg, key, zero, first, True) + \
        cfb(alg, key, first[2:], data[n + 2:], True)


def coded_count(c):
    return (16 + (c & 15)) << ((c >> 4) + 6)


def s2k_octets(mode, hash_, salt, coded):
    raw = be(mode, 1) + be(hash_, 1)
    if mode:
        raw += salt
    if mode == 3:
        raw += be(coded, 1)
    return raw


def s2k_key(sx, mode, hash_, size, salt, phrase, coded):
    name = HASHES[hash_][0]
    if mode == 0:
        octets = phrase
    elif mode == 1:
        octets = salt + phrase
    else:
        one = salt + phrase
        total = max(coded_count(coded), len(one))
        octets = (one * (total // len(one) + 1))[:total]
    out = b''
    k = 0
    while len(out) < size:
        out += sx.digest(name, bytes(bytearray(k)) + octets)
        k += 1
    return out[:size]
