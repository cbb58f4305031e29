"""Encrypted session keys (RFC 4880 sections 5.1, 5.3, 13.1)."""
import collections
import datetime
from Crypto import Random
from Crypto.Cipher.PKCS1_v1_5 import PKCS115_Cipher
from Crypto.PublicKey import ElGamal, RSA
from pgp import message as msg
from pgp import transferrable_keys as tk
from pgp.packets import packets as pk
from hlib import real
from hlib.crypt import (CIPHERS, block_cipher, cfb, encrypt_data, s2k_key,
                        s2k_octets)
from hlib.util import be, mpi, new_frame, refuses

WHEN = datetime.datetime(2014, 5, 13)


def keys(name, alg, version=4):
    pub = tk.TransferablePublicKey.from_packets(
        [real.packet(6, real.public_body(alg, name, version=version))])
    sec = tk.TransferableSecretKey.from_packets(
        [real.packet(5, real.secret_body(alg, name, version=version))])
    sec.unlock('')
    return pub, sec


def library_key(name, alg):
    n = real.KEYS[name]
    if alg == 16:
        return ElGamal.construct((n['p'], n['g'], n['y'], n['x']))
    return RSA.construct((n['n'], n['e'], n['d'], n['p'], n['q'], n['u']))


def key_id(sx, name, alg, version):
    if version < 4:
        return be(real.KEYS[name]['n'] & (2 ** 64 - 1), 8)
    body = real.public_body(alg, name, version=version)
    return sx.digest('sha1', b'\x99' + be(len(body), 2) + body)[-8:]


def open_mpi(body, at):
    bits = bytearray(body[at:at + 2])
    n = ((bits[0] << 8) + bits[1] + 7) // 8
    return body[at + 2:at + 2 + n], at + 2 + n


def unpad(sx, em):
    """The message of an EME-PKCS1-v1_5 block without its first octet."""
    em = bytes(em)
    sx.check(sx.eq(em[:1], b'\x02'), 'block type')
    end = em.find(b'\x00', 1)
    sx.check(end >= 9, 'padding')
    return em[end + 1:]


def reveal(sx, name, alg, octets):
    """What the library decrypts."""
    key = library_key(name, alg)
    size = (real.KEYS[name]['p' if alg == 16 else 'n'].bit_length() + 7) // 8
    if alg == 16:
        a, at = open_mpi(octets, 0)
        b, at = open_mpi(octets, at)
        sx.check(at == len(octets), 'two numbers')
        sx.check(sx.no(sx.eq(a, b'\x01')), 'exponent')
        return unpad(sx, key.decrypt((bytes(a), bytes(b)))), a
    c, at = open_mpi(octets, 0)
    sx.check(at == len(octets), 'one number')
    c = bytes(c)
    return PKCS115_Cipher(key).decrypt(bytes(bytearray(size - len(c))) + c,
                                       None), c


def hide(name, alg, m):
    """What the library encrypts."""
    key = library_key(name, alg)
    if alg == 16:
        size = (real.KEYS[name]['p'].bit_length() + 7) // 8
        ps = bytes(bytearray([i * 3 % 255 + 1
                              for i in range(size - 3 - len(m))]))
        return raw_elgamal(name, b'\x00\x02' + ps + b'\x00' + m)
    c = bytearray(PKCS115_Cipher(key.publickey()).encrypt(m))
    return shrink(c)


def raw_elgamal(name, em):
    out = b''
    for v in library_key(name, 16).encrypt(em, 65539):
        out += shrink(bytearray(v))
    return out


def shrink(octets):
    """As an MPI."""
    while octets[0] == 0:
        octets = octets[1:]
    top = octets[0]
    bits = 8 * len(octets) - 8
    for i in range(8):
        if top >= 1 << i:
            bits += 1
    return be(bits, 2) + bytes(octets)


def from_body(tag, body):
    if tag == 1:
        return msg.PublicKeySessionKey.from_packet(real.packet(1, body))
    return msg.SymmetricSessionKey.from_packet(real.packet(3, body))


def body_of(packet, tag):
    raw = bytes(bytes(packet))
    assert raw[:1] == be(0xc0 | tag, 1), raw
    first = bytearray(raw)[1]
    if first < 192:
        return raw[2:]
    return raw[3:]


def checked(m):
    return m + be(sum(bytearray(m[1:])) & 0xffff, 2)


def reopened(wrapper):
    data = b''.join([bytes(p) for p in wrapper.to_packets()])
    packets = []
    offset = 0
    while offset < len(data):
        offset, p = pk.packet_from_packet_data(bytearray(data), offset)
        packets.append(p)
    return msg.open_pgp_message_from_packets(packets)


def literal(data=b'hello'):
    return msg.BinaryMessage(data, 'x', WHEN)


def same_message(sx, got, data=b'hello'):
    sx.check(isinstance(got, msg.BinaryMessage), 'message')
    sx.check(sx.eq(bytes(got.data), data), 'data')


def octets(sx, fixed, name, n):
    """IDEA is not within reach with a key that isn't fixed."""
    if fixed:
        return bytes(bytearray([(i * 41 + len(name)) & 0xff
                                for i in range(n)]))
    return sx.bytes(name, n)


class Counted(object):
    """Randomness that is never the same."""
    count = 0

    def read(self, n):
        Counted.count += 1
        return bytes(bytearray([Counted.count % 255 + 1] * n))


class Padding(object):
    """Randomness of which the first octets may be zero: others must be
    drawn then."""

    def __init__(self, sx):
        self.sx = sx
        self.count = 0

    def read(self, n):
        self.count += 1
        out = self.sx.bytes('pad%d' % self.count, min(n, 2))
        if n == 1 and self.count > 3:
            self.sx.assume(bytearray(out)[0] != 0)
        return out + bytes(bytearray([i % 255 + 1 for i in range(n - 2)]))


def h_wrap(sx, name, alg, sym, version, hidden):
    """What is written for a public key is what RFC 4880 says, and its owner
    reads it."""
    pub, sec = keys(name, alg, version)
    sk = octets(sx, sym == 1, 'session', CIPHERS[sym][2])
    if alg == 16 or sym == 1:
        sx.patch(Random, 'new', lambda *a, **k: pads)
    for attempt in sx.repeat(30):
        pads = Counted() if sym == 1 else Padding(sx)
        if hidden:
            w = literal().public_key_encrypt(sym, hidden_public_keys=[pub],
                                             session_key=sk)
        else:
            w = literal().public_key_encrypt(sym, public_key=pub,
                                             session_key=sk)
        packets = w.to_packets()
        sx.check(len(packets) == 2, 'packets')
        body = body_of(packets[0], 1)
        sx.check(sx.eq(body[:10], b'\x03' + (
            b'\x00' * 8 if hidden else key_id(sx, name, alg, version)) +
            be(alg, 1)), 'head')
        m, c = reveal(sx, name, alg, body[10:])
        sx.check(m is not None, 'decrypts')
        sx.check(sx.eq(m, checked(be(sym, 1) + sk)), 'session key')
        got = from_body(1, body).get_algorithm_and_session_key(sec)
        sx.check(got[0] == sym, 'algorithm')
        sx.check(sx.eq(bytes(got[1]), sk), 'key')
        same_message(sx, reopened(w).get_message(sec))
    sx.reach('end')


def h_unwrap(sx, name, alg, n):
    """Any octets encrypted to the key: a session key only if there is a
    checksum and it is right."""
    pub, sec = keys(name, alg)
    m = sx.bytes('m', n)
    body = b'\x03' + key_id(sx, name, alg, 4) + be(alg, 1) + hide(name, alg, m)
    esk = from_body(1, body)
    good = n > 2
    if good:
        o = bytearray(m)
        good = sum(o[1:-2]) % 65536 == (o[-2] << 8) + o[-1]
    try:
        got = esk.get_algorithm_and_session_key(sec)
    except Exception:
        sx.check(sx.no(good), 'refused')
        sx.reach('refused')
        return
    sx.check(good, 'wrong checksum accepted')
    sx.check(got[0] == bytearray(m)[0], 'algorithm')
    sx.check(sx.eq(bytes(got[1]), m[1:-2]), 'key')
    sx.reach('read')


def h_padding(sx, name, split, n):
    """ElGamal: blocks that are not padded as they should be."""
    pub, sec = keys(name, 16)
    size = (real.KEYS[name]['p'].bit_length() + 7) // 8
    key = bytes(bytearray(range(100, 100 + n)))
    tail = b'\x00' + checked(b'\x07' + key)
    if split == 'type':
        kind = sx.int('type', 1, 255)
        em = b'\x00' + be(kind, 1) + b'\x55' * (size - 2 - len(tail)) + tail
        good = kind == 2
        want = key
    else:
        # the padding ends where the first zero is
        head = sx.bytes('pad', split)
        em = b'\x00\x02' + head + \
            b'\x55' * (size - 2 - split - len(tail)) + tail
        good = True
        want = None
    esk = from_body(1, b'\x03' + bytes(bytearray(8)) + b'\x10' +
                    raw_elgamal(name, em))
    try:
        got = esk.get_algorithm_and_session_key(sec)
    except Exception:
        if split == 'type':
            sx.check(sx.no(good), 'refused')
        else:
            zeros = [b == 0 for b in bytearray(head)]
            sx.check(sx.either(*zeros), 'refused')
        sx.reach('refused')
        return
    if split == 'type':
        sx.check(good, 'wrong type accepted')
    else:
        for b in bytearray(head)[:8]:
            sx.check(b != 0, 'short padding accepted')
        # a zero further on is followed by a random message: its checksum is
        # wrong, or it is one
        want = bytes(em)[bytes(em).find(b'\x00', 2) + 2:-2]
    sx.check(sx.eq(bytes(got[1]), want), 'key')
    sx.reach('read')


def h_early(sx, name, at):
    """ElGamal: a whole message after less (or not less) padding than 8."""
    pub, sec = keys(name, 16)
    size = (real.KEYS[name]['p'].bit_length() + 7) // 8
    n = size - 3 - at - 3
    head = sx.bytes('pad', at)
    for b in bytearray(head):
        sx.assume(b != 0)
    key = sx.bytes('key', n)
    alg = {16: 7, 24: 8, 32: 9}.get(n, 7)
    em = b'\x00\x02' + head + b'\x00' + checked(be(alg, 1) + key)
    esk = from_body(1, b'\x03' + bytes(bytearray(8)) + b'\x10' +
                    raw_elgamal(name, em))
    try:
        got = esk.get_algorithm_and_session_key(sec)
    except Exception:
        # (a number of the scheme may be one octet shorter than the modulus)
        sx.check(at < 8 or n not in (16, 24, 32), 'refused')
        sx.reach('refused')
        return
    sx.check(at >= 8, 'short padding accepted')
    sx.check(got[0] == alg, 'algorithm')
    sx.check(sx.eq(bytes(got[1]), key), 'key')
    sx.reach('read')


def h_leading(sx, name, zeros):
    """Ciphertexts with leading zero octets (none is written in an MPI)."""
    pub, sec = keys(name, 1)
    n, e = real.KEYS[name]['n'], real.KEYS[name]['e']
    size = (n.bit_length() + 7) // 8
    sk = bytes(bytearray(range(16)))
    m = checked(b'\x07' + sk)
    k = 0
    while True:
        k += 1
        ps = be(k, 4).replace(b'\x00', b'\x01')
        em = b'\x00\x02' + ps + b'\x07' * (size - 7 - len(m)) + b'\x00' + m
        c = pow(real.number(em), e, n)
        if c >> (8 * (size - zeros)) == 0:
            break
    esk = from_body(1, b'\x03' + bytes(bytearray(8)) + b'\x01' + mpi(c))
    got = esk.get_algorithm_and_session_key(sec)
    sx.check(got[0] == 7, 'algorithm')
    sx.check(sx.eq(bytes(got[1]), sk), 'key')
    sx.reach('end')


def h_fresh(sx, name, alg, sym):
    """Session keys and what hides them are made anew each time."""
    pub, sec = keys(name, alg)
    seen = []
    Counted.count = 0
    sx.patch(Random, 'new', lambda *a, **k: Counted())
    for i in range(2):
        w = literal().public_key_encrypt(sym, public_key=pub)
        body = body_of(w.to_packets()[0], 1)
        m, c = reveal(sx, name, alg, body[10:])
        seen.append((bytes(m), bytes(c)))
        n = CIPHERS[sym][2]
        sx.check(len(m) == n + 3, 'length of the session key')
    sx.check(sx.no(sx.eq(seen[0][0][1:-2], seen[1][0][1:-2])),
             'same session key')
    again = []
    for i in range(2):
        w = literal().public_key_encrypt(sym, public_key=pub,
                                         session_key=b'k' * n)
        body = body_of(w.to_packets()[0], 1)
        again.append(bytes(reveal(sx, name, alg, body[10:])[1]))
    sx.check(sx.no(sx.eq(again[0], again[1])), 'same padding or exponent')
    sx.reach('end')


def h_symmetric(sx, mode, hash_, s2k_sym, sym, n, coded, given):
    """... for a passphrase."""
    idea = 1 in (sym, s2k_sym)
    phrase = octets(sx, idea, 'phrase', n)
    salt = octets(sx, idea, 'salt', 8)
    kw = dict(s2k_type=mode, s2k_hash_algorithm=hash_,
              s2k_symmetric_algorithm=s2k_sym, s2k_salt=salt,
              s2k_count=(16 + (coded & 15)) << ((coded >> 4) + 6))
    if idea:
        sx.patch(Random, 'new', lambda *a, **k: Counted())
    sk = octets(sx, idea, 'session', CIPHERS[sym][2])
    if given:
        kw['session_key'] = sk
    w = literal().symmetric_encrypt(sym, phrase, **kw)
    body = body_of(w.to_packets()[0], 3)
    head = b'\x04' + be(s2k_sym, 1) + s2k_octets(mode, hash_, salt, coded)
    sx.check(sx.eq(body[:len(head)], head), 'head')
    key = s2k_key(sx, mode, hash_, CIPHERS[s2k_sym][2], salt, phrase, coded)
    zero = bytes(bytearray(CIPHERS[s2k_sym][1]))
    m = cfb(s2k_sym, key, zero, body[len(head):], True)
    sx.check(len(m) == 1 + len(sk), 'length')
    sx.check(sx.eq(m[:1], be(sym, 1)), 'algorithm')
    if given:
        sx.check(sx.eq(m[1:], sk), 'session key')
    got = from_body(3, body).get_algorithm_and_session_key(phrase)
    sx.check(got[0] == sym, 'algorithm read')
    sx.check(sx.eq(bytes(got[1]), m[1:]), 'key read')
    same_message(sx, reopened(w).get_message(phrase))
    sx.reach('end')


def h_passphrase(sx, mode, hash_, sym, n, inner, mdc):
    """A message of another implementation, with and without an encrypted
    session key."""
    idea = 1 in (sym, inner)
    phrase = octets(sx, idea, 'phrase', n)
    salt = octets(sx, idea, 'salt', 8)
    key = s2k_key(sx, mode, hash_, CIPHERS[sym][2], salt, phrase, 0)
    body = b'\x04' + be(sym, 1) + s2k_octets(mode, hash_, salt, 0)
    alg = sym
    if inner:
        zero = bytes(bytearray(CIPHERS[sym][1]))
        alg, sk = inner, octets(sx, idea, 'session', CIPHERS[inner][2])
        body += cfb(sym, key, zero, be(inner, 1) + sk)
        key = sk
    esk = from_body(3, body)
    got = esk.get_algorithm_and_session_key(phrase)
    sx.check(got[0] == alg, 'algorithm')
    sx.check(sx.eq(bytes(got[1]), key), 'key')
    back = body_of(esk.to_packet(), 3)
    sx.check(sx.eq(back, body), 'written')
    w = msg.open_pgp_message_from_packets(
        [real.packet(3, body), data_packet(sx, alg, key, mdc)])
    same_message(sx, w.get_message(phrase))
    if n < 20 and not idea:
        text = sx.text('text', 3)
        key = s2k_key(sx, mode, hash_, CIPHERS[sym][2], salt,
                      text.encode('utf8'), 0)
        esk = from_body(3, b'\x04' + be(sym, 1) +
                        s2k_octets(mode, hash_, salt, 0))
        got = esk.get_algorithm_and_session_key(text)
        sx.check(sx.eq(bytes(got[1]), key), 'key of a text')
    sx.reach('end')


def data_packet(sx, alg, key, mdc, prefix=None):
    n = CIPHERS[alg][1]
    if prefix is None:
        prefix = bytes(bytearray(range(60, 60 + n)))
    data = new_frame(11, b'b\x01x' + be(1400000000, 4) + b'hello')
    check = prefix[-2:]
    if not mdc:
        return real.packet(9, encrypt_data(alg, key, prefix, check, data,
                                           True))
    data += b'\xd3\x14'
    data += sx.digest('sha1', prefix + check + data)
    return real.packet(18, b'\x01' + encrypt_data(alg, key, prefix, check,
                                                  data, False))


def h_several(sx, alg, order, mdc):
    """Several recipients and passphrases, in any order: each one of them
    reads the message and nobody else does."""
    known = {'a': ('rsa', 1), 'b': ('rsa_b', 1), 's': ('rsa_s', 1),
             'e': ('elg', 16), 'f': ('elg_b', 16)}
    sk = sx.bytes('session', CIPHERS[alg][2])
    esks = []
    for who in order:
        if who in 'pq':
            phrase = {'p': b'one', 'q': b'two'}[who]
            salt = (b'salt' + phrase + b'x')[:8]
            key = s2k_key(sx, 1, 2, CIPHERS[7][2], salt, phrase, 0)
            body = b'\x04\x07' + s2k_octets(1, 2, salt, 0)
            body += cfb(7, key, bytes(bytearray(16)), be(alg, 1) + sk)
            esks.append(real.packet(3, body))
        else:
            name, pkalg = known[who.lower()]
            kid = key_id(sx, name, pkalg, 4)
            if who.isupper():
                kid = bytes(bytearray(8))
            esks.append(real.packet(1, b'\x03' + kid + be(pkalg, 1) + hide(
                name, pkalg, checked(be(alg, 1) + sk))))
    data = data_packet(sx, alg, sk, mdc)

    def read(secret):
        w = msg.open_pgp_message_from_packets(esks + [data])
        return w.get_message(secret)

    for who in 'abef':
        name, pkalg = known[who]
        sec = keys(name, pkalg)[1]
        if who in order or who.upper() in order:
            same_message(sx, read(sec))
        else:
            sx.check(refuses(sx, read, sec), 'read by somebody else')
    for who, phrase in (('p', 'one'), ('q', b'two')):
        if who in order:
            if sum([w in 'pq' for w in order]) == 1:
                same_message(sx, read(phrase))
        elif not set(order) & set('pq'):
            sx.check(refuses(sx, read, phrase), 'read with a passphrase')
    # its secret numbers are not there
    locked = tk.TransferableSecretKey.from_packets(
        [real.packet(5, real.secret_body(1, 'rsa'))])
    sx.check(refuses(sx, read, locked), 'read with a locked key')
    sx.reach('end')


def h_phrases(sx, order, mine):
    """Several passphrases."""
    alg = 7
    sk = sx.bytes('session', CIPHERS[alg][2])
    phrases = {'p': b'one', 'q': b'two', 'r': b'three'}
    esks = []
    for who in order:
        phrase = phrases[who]
        salt = (b'salt' + phrase + b'x')[:8]
        key = s2k_key(sx, 1, 2, CIPHERS[7][2], salt, phrase, 0)
        body = b'\x04\x07' + s2k_octets(1, 2, salt, 0)
        enc = cfb(7, key, bytes(bytearray(16)), be(alg, 1) + sk)
        if who != mine:
            # with our passphrase, this is for no cipher there is
            other = s2k_key(sx, 1, 2, CIPHERS[7][2], salt, phrases[mine], 0)
            junk = cfb(7, other, bytes(bytearray(16)), enc, True)
            first = bytearray(junk)[0]
            sx.assume(first > 13)
        esks.append(real.packet(3, body + enc))
    w = msg.open_pgp_message_from_packets(
        esks + [data_packet(sx, alg, sk, True)])
    same_message(sx, w.get_message(phrases[mine]))
    sx.reach('end')


# --- cases ---
def cases(tier):
    out = []
    thorough = tier != 'quick'
    keys = {1: 16, 2: 24, 3: 16, 4: 16, 7: 16, 8: 24, 9: 32, 10: 32,
            11: 16, 12: 24, 13: 32}
    syms = [1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13]
    for sym in syms:
        for name, alg, version in [('rsa', 1, 4), ('elg', 16, 4)]:
            if alg == 16 and keys[sym] > 16 and not thorough:
                continue
            if alg == 16 and keys[sym] > 18:
                continue
            out.append(('h_wrap', dict(name=name, alg=alg, sym=sym,
                                       version=version, hidden=False)))
    for name, alg, version, sym in [('rsa_b', 2, 4, 7), ('rsa', 1, 3, 7),
                                    ('rsa_s', 1, 4, 3), ('elg_b', 16, 4, 7),
                                    ('rsa_l', 1, 4, 9)]:
        for hidden in (False, True):
            out.append(('h_wrap', dict(name=name, alg=alg, sym=sym,
                                       version=version, hidden=hidden)))
    for name, alg in [('rsa', 1), ('elg', 16), ('rsa_s', 2)]:
        for n in (0, 1, 3, 4, 19) + ((5, 12, 16) if thorough else ()):
            out.append(('h_unwrap', dict(name=name, alg=alg, n=n)))
    for n in (27, 35, 53) if thorough else (35,):
        out.append(('h_unwrap', dict(name='rsa', alg=1, n=n)))
    out.append(('h_padding', dict(name='elg', split='type', n=8)))
    out.append(('h_padding', dict(name='elg', split=5, n=8)))
    out.append(('h_padding', dict(name='elg_b', split=8, n=8)))
    for name in ('elg', 'elg_b'):
        for at in (2, 10) + ((1, 3, 5, 7, 8, 9) if thorough else (7,)):
            out.append(('h_early', dict(name=name, at=at)))
    for name in ('rsa', 'rsa_b', 'rsa_s'):
        for zeros in (1,):
            out.append(('h_leading', dict(name=name, zeros=zeros)))
    for name, alg in [('rsa', 1), ('elg', 16)]:
        for sym in (7, 3):
            out.append(('h_fresh', dict(name=name, alg=alg, sym=sym)))
    k = 0
    for sym in syms:
        for s2k_sym in (syms if thorough else (sym, syms[(k * 5 + 3) % 11])):
            mode = (0, 1, 3)[k % 3]
            hash_ = (1, 2, 3, 8, 9, 10, 11)[k % 7]
            out.append(('h_symmetric', dict(
                mode=mode, hash_=hash_, s2k_sym=s2k_sym, sym=sym,
                n=(0, 1, 9)[k % 3], coded=(0, 3)[k % 2],
                given=bool(k % 4))))
            k += 1
    for sym in syms:
        for inner in (0, 7, 9, 3) if thorough else (0, syms[k % 11]):
            mode = (0, 1, 3)[k % 3]
            hash_ = (1, 2, 3, 8, 9, 10, 11)[k % 7]
            out.append(('h_passphrase', dict(
                mode=mode, hash_=hash_, sym=sym, n=(1, 5, 20)[k % 3],
                inner=inner, mdc=bool(k % 2))))
            k += 1
    for order in ('a', 'A', 'ab', 'Ab', 'aB', 'AB', 'BA', 'ae', 'EA', 'Eb',
                  'fe', 'FE', 'sA', 'SA', 'SE', 'ap', 'pa', 'Ap', 'pA',
                  'pABE', 'ABEFae', 'pabefpAB', 'FEBAFEBAF') + \
            (('ABEF', 'FEBA', 'aBeF', 'pabef', 'abefp') if thorough else ()):
        for mdc in (True, False):
            out.append(('h_several', dict(alg=7 if len(order) % 2 else 3,
                                          order=order, mdc=mdc)))
    for order, mine in [('pq', 'p'), ('pq', 'q'), ('qp', 'q'),
                        ('pqrpq', 'r')] + \
            ([('pqr', 'r'), ('rqp', 'q')] if thorough else []):
        out.append(('h_phrases', dict(order=order, mine=mine)))
    return out
