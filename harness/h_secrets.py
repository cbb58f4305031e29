"""Secret keys: protection, unlocking and locking (RFC 4880 section 5.5.3)."""
from pgp import message as msg
from pgp import s2k
from pgp import transferrable_keys as tk
from pgp.packets import packets as pk
from hlib import real
from hlib.crypt import CIPHERS, cfb, s2k_key, s2k_octets
from hlib.keys import sig4_body, subpacket
from hlib.util import be, exact_mpi, refuses

NAMES = {1: ['exponent_d', 'prime_p', 'prime_q', 'multiplicative_inverse_u'],
         16: ['exponent_x'], 17: ['exponent_x']}
KEY = {1: 'rsa_s', 16: 'elg', 17: 'dsa'}
SUM, SHA1 = 2, 20


def phrase_of(sx, n, name='phrase'):
    raw = bytes(bytearray([sx.int('%s%d' % (name, i), 0, 127)
                           for i in range(n)]))
    return raw, raw.decode('ascii')


def secret_numbers(sx, alg, bits, fixed, whole=False):
    """(octets of the MPIs, their contents apart, their values)"""
    parts, values = [], []
    for i, b in enumerate(bits[:len(NAMES[alg])]):
        if whole:
            v = sx.int('secret%d' % i, 1 << (b - 1), (1 << b) - 1)
            raw = be(b, 2) + be(v, (b + 7) // 8)
        elif fixed:
            v = (1 << (b - 1)) + 12345678901234567 * (i + 1) % (1 << (b - 1))
            raw = be(b, 2) + be(v, (b + 7) // 8)
        else:
            raw, v = exact_mpi(sx, 'secret%d' % i, b)
        parts.append(raw)
        values.append(v)
    return parts, values


def checksum(parts):
    t = 0
    for b in bytearray(b''.join(parts)):
        t = t + b
    return be(t & 0xffff, 2)


def trailer_of(sx, usage, parts):
    if usage == 254:
        return sx.digest('sha1', b''.join(parts))
    return checksum(parts)


def locked_part(version, cipher, key, iv, parts, trailer):
    """The secret part as it is stored."""
    if cipher == 0:
        return b''.join(parts) + trailer
    if version >= 4:
        return cfb(cipher, key, iv, b''.join(parts) + trailer)
    out = b''
    for p in parts:
        c = cfb(cipher, key, iv, p[2:])
        out += p[:2] + c
        iv = (iv + c)[-len(iv):]
    return out + trailer


class Form(object):
    """One way to protect a key: the usage octet and what comes with it."""

    def __init__(self, sx, usage, cipher=0, mode=0, hash_=2, coded=0,
                 fixed=False, tag=''):
        self.usage, self.cipher = usage, cipher
        self.mode, self.hash_, self.coded = mode, hash_, coded
        self.iv = b''
        self.salt = b''
        if usage:
            n = CIPHERS[cipher][1]
            self.iv = bytes(bytearray(range(50, 50 + n))) if fixed else \
                sx.bytes(tag + 'iv', n)
        if usage in (254, 255) and mode:
            self.salt = b'saltsalt' if fixed else sx.bytes(tag + 'salt', 8)

    def octets(self):
        out = be(self.usage, 1)
        if self.usage in (254, 255):
            out += be(self.cipher, 1) + s2k_octets(
                self.mode, self.hash_, self.salt, self.coded)
        return out + self.iv

    def key(self, sx, phrase):
        if not self.usage:
            return b''
        if self.usage in (254, 255):
            return s2k_key(sx, self.mode, self.hash_, CIPHERS[self.cipher][2],
                           self.salt, phrase, self.coded)
        return sx.digest('md5', phrase)

    def store(self, sx, version, phrase, parts, trailer=None):
        if trailer is None:
            trailer = trailer_of(sx, self.usage, parts)
        return self.octets() + locked_part(
            version, self.cipher, self.key(sx, phrase), self.iv, parts,
            trailer)


def secret_key(body, version=4):
    return tk.TransferableSecretKey.from_packets([real.packet(5, body)])


def nothing_known(sx, key, alg):
    sx.check(key.is_locked() is True, 'locked')
    for name in NAMES[alg]:
        if alg == 1 or name == 'exponent_x':
            sx.check(getattr(key, name) is None, 'known: ' + name)


def all_known(sx, key, alg, values):
    sx.check(key.is_locked() is False, 'unlocked')
    for name, v in zip(NAMES[alg], values):
        sx.check(getattr(key, name) == v, name)


def h_unlock(sx, alg, version, usage, cipher, mode, hash_, coded, n, bits):
    fixed = cipher == 1
    if n < 0:
        text = u'p\xe4ssw\xf6rd \u20ac'
        phrase = b'p\xc3\xa4ssw\xc3\xb6rd \xe2\x82\xac'
    elif fixed:
        phrase = b'abcdefghijklmnopqrstuvw'[:n]
        text = phrase.decode('ascii')
    else:
        phrase, text = phrase_of(sx, n)
    form = Form(sx, usage, cipher, mode, hash_, coded, fixed)
    parts, values = secret_numbers(sx, alg, bits, fixed)
    public = real.public_body(alg, KEY[alg], version=version)
    body = public + form.store(sx, version, phrase, parts)
    key = secret_key(body)
    nothing_known(sx, key, alg)
    key.unlock(text)
    all_known(sx, key, alg, values)
    sx.check(sx.eq(bytes(key.to_packet().content), body), 'written unlocked')
    pub = key.to_public_key()
    sx.check(sx.eq(bytes(pub.to_packet().content), public), 'public key')
    for name in NAMES[alg]:
        sx.check(getattr(pub, name, None) is None or
                 (alg != 1 and name == 'prime_p'), 'public: ' + name)
    sx.check(sx.eq(pub.key_id, key.key_id), 'key ID')
    key.lock()
    nothing_known(sx, key, alg)
    sx.check(sx.eq(bytes(key.to_packet().content), body), 'written locked')
    key.unlock(text)
    all_known(sx, key, alg, values)
    # and by the packet itself
    p = real.packet(5, body)
    p.decrypt(phrase)
    for name, v in zip(NAMES[alg], values):
        sx.check(getattr(p, name) == v, 'packet: ' + name)
    sx.reach('unlocked')


def h_unlock_subkey(sx, alg, usage, cipher, mode):
    """Subkeys, protected in a way and with numbers of their own."""
    phrase, text = phrase_of(sx, 3)
    first = Form(sx, 254, 9, 3, 8, 1, tag='a')
    parts, values = secret_numbers(sx, 17, (33,), False)
    sub = Form(sx, usage, cipher, mode, 2, 0, tag='b')
    sparts, svalues = [], []
    for i in range(len(NAMES[alg])):
        raw, v = exact_mpi(sx, 'sub%d' % i, 17 + i)
        sparts.append(raw)
        svalues.append(v)
    pub = real.public_body(17, 'dsa')
    spub = real.public_body(alg, KEY[alg])
    body = pub + first.store(sx, 4, phrase, parts)
    sbody = spub + sub.store(sx, 4, phrase, sparts)
    key = tk.TransferableSecretKey.from_packets(
        [real.packet(5, body), real.packet(7, sbody), binding()])
    nothing_known(sx, key, 17)
    nothing_known(sx, key.subkeys[0], alg)
    key.unlock(text)
    all_known(sx, key, 17, values)
    all_known(sx, key.subkeys[0], alg, svalues)
    out = key.to_packets()
    sx.check([p.type for p in out] == [5, 7, 2], 'packets')
    sx.check(sx.eq(bytes(out[0].content), body), 'key')
    sx.check(sx.eq(bytes(out[1].content), sbody), 'subkey')
    public = key.to_public_key()
    out = public.to_packets()
    sx.check([p.type for p in out] == [6, 14, 2], 'public packets')
    sx.check(sx.eq(bytes(out[0].content), pub), 'public key')
    sx.check(sx.eq(bytes(out[1].content), spub), 'public subkey')
    for name in NAMES[alg]:
        if alg == 1 or name == 'exponent_x':
            sx.check(getattr(public.subkeys[0], name, None) is None,
                     'public: ' + name)
    key.lock()
    nothing_known(sx, key, 17)
    nothing_known(sx, key.subkeys[0], alg)
    key.subkeys[0].unlock(text)
    all_known(sx, key.subkeys[0], alg, svalues)
    nothing_known(sx, key, 17)
    sx.reach('unlocked')


def binding():
    hashed = subpacket(2, be(real.TIME, 4)) + subpacket(16, b'12345678')
    return real.packet(2, sig4_body(0x18, 17, 2, hashed, b'', b'ab',
                                    b'\x00\x09\x01\xff\x00\x09\x01\xfe'))


def h_wrong(sx, alg, version, usage, cipher, mode, bits):
    """Whatever the secret part decrypts to, it is taken only if its end is
    right."""
    phrase, text = phrase_of(sx, 2)
    form = Form(sx, usage, cipher, mode, 2, 0)
    parts, values = secret_numbers(sx, alg, bits, False)
    right = trailer_of(sx, usage, parts)
    trailer = sx.bytes('trailer', len(right))
    body = real.public_body(alg, KEY[alg], version=version) + form.store(
        sx, version, phrase, parts, trailer)
    key = secret_key(body)
    good = sx.eq(trailer, right)
    try:
        key.unlock(text)
    except Exception:
        sx.check(sx.no(good), 'refused')
        nothing_known(sx, key, alg)
        sx.reach('refused')
        return
    sx.check(good, 'accepted')
    all_known(sx, key, alg, values)
    sx.reach('accepted')


def h_changed(sx, alg, version, usage, cipher, mode, bits, at):
    """A change of one octet of what is stored is found out."""
    phrase, text = phrase_of(sx, 2)
    form = Form(sx, usage, cipher, mode, 2, 0)
    parts, values = secret_numbers(sx, alg, bits, False)
    public = real.public_body(alg, KEY[alg], version=version)
    stored = form.store(sx, version, phrase, parts)
    size = len(b''.join(parts))
    mask = sx.int('mask', 1, 255)
    if version >= 4 and usage:
        # what it decrypts to is changed there
        parts2 = b''.join(parts) + trailer_of(sx, usage, parts)
        changed = parts2[:at] + be(bytearray(parts2)[at] ^ mask, 1) + \
            parts2[at + 1:]
        body = public + form.octets() + cfb(
            cipher, form.key(sx, phrase), form.iv, changed)
    else:
        k = len(stored) - size - SUM + at
        body = public + stored[:k] + be(bytearray(stored)[k] ^ mask, 1) + \
            stored[k + 1:]
    key = secret_key(body)
    sx.check(refuses(sx, key.unlock, text), 'accepted')
    nothing_known(sx, key, alg)


def h_short(sx, alg, version, usage, cipher, n):
    """Secret parts that are too short for a checksum or a hash."""
    phrase, text = phrase_of(sx, 2)
    form = Form(sx, usage, cipher, 0, 2, 0)
    data = sx.bytes('data', n)
    body = real.public_body(alg, KEY[alg], version=version) + form.octets() + \
        data
    key = secret_key(body)
    sx.check(refuses(sx, key.unlock, text), 'accepted')
    sx.check(key.is_locked() is True, 'locked')


def h_stub(sx, tag, cipher, usage, mode, serial):
    """Keys whose secret part GnuPG keeps elsewhere."""
    spec = b'\x65' + sx.bytes('hash', 1) + b'GNU' + be(mode, 1)
    if mode == 2:
        spec += be(serial, 1) + sx.bytes('serial', serial)
    body = real.public_body(1, 'rsa') + be(usage, 1) + be(cipher, 1) + spec
    if tag == 5:
        root = key = secret_key(body)
    else:
        root = tk.TransferableSecretKey.from_packets(
            [real.packet(5, real.secret_body(17, 'dsa')),
             real.packet(7, body), binding()])
        key = root.subkeys[0]
    sx.check(refuses(sx, key.unlock, 'x'), 'unlocked')
    nothing_known(sx, key, 1)
    sx.check(sx.eq(bytes(key.to_packet().content), body), 'written')
    sx.check(bytes(key.to_public_key().to_packet().content) ==
             real.public_body(1, 'rsa'), 'public key')


def h_all_or_none(sx, wrong, subs):
    """A key is unlocked with all its subkeys or not at all."""
    phrase, text = phrase_of(sx, 2)
    other, _ = phrase_of(sx, 2, 'other')
    packets = []
    for i in range(subs + 1):
        form = Form(sx, 254, 9, 3, 8, 1, tag='f%d' % i)
        raw, v = exact_mpi(sx, 'n%d' % i, 12)
        bad = be(0, 20) if i == wrong else None
        if bad:
            sx.assume(sx.no(sx.eq(bad, sx.digest('sha1', raw))))
        body = real.public_body(17, 'dsa' if i % 2 else 'dsa_b') + form.store(
            sx, 4, phrase, [raw], bad)
        packets.append(real.packet(7 if i else 5, body))
        if i:
            packets.append(binding())
    key = tk.TransferableSecretKey.from_packets(packets)
    refused = refuses(sx, key.unlock, text)
    sx.check(refused == (wrong is not None), 'refused')
    for k in [key] + key.subkeys:
        if refused:
            nothing_known(sx, k, 17)
        else:
            sx.check(not k.is_locked() and k.exponent_x is not None, 'open')
    sx.reach('done')


def h_context(sx, alg, usage, cipher, mode, end, sub):
    """Unlocked for the time of a with statement only."""
    from pgp.context_managers import unlocked
    phrase, text = phrase_of(sx, 2)
    form = Form(sx, usage, cipher, mode, 8, 1)
    parts, values = secret_numbers(sx, alg, [12, 9, 9, 9], False)
    trailer = None
    if end == 'wrong':
        right = trailer_of(sx, usage, parts)
        trailer = sx.bytes('trailer', len(right))
        sx.assume(sx.no(sx.eq(trailer, right)))
    body = real.public_body(alg, KEY[alg]) + form.store(
        sx, 4, phrase, parts, trailer)
    if sub:
        root = tk.TransferableSecretKey.from_packets(
            [real.packet(5, real.secret_body(17, 'dsa')),
             real.packet(7, body), binding()])
        key = root.subkeys[0]
    else:
        key = secret_key(body)
    if end != 'wrong' and sx.bool('before'):
        key.unlock(text)
    ran = []

    class Stop(Exception):
        pass

    def use():
        with unlocked(key, text) as k:
            sx.check(k is key, 'the key')
            all_known(sx, key, alg, values)
            ran.append(1)
            if end == 'raise':
                raise Stop()
            if end == 'return':
                return 5
            if end == 'lock':
                key.lock()
        return 6
    if end == 'wrong':
        try:
            use()
            refused = False
        except Exception:
            refused = True
        sx.check(refused and not ran, 'refused')
    elif end == 'raise':
        try:
            use()
            stopped = False
        except Stop:
            stopped = True
        sx.check(stopped, 'raised')
    else:
        sx.check(use() == (5 if end == 'return' else 6), 'result')
    nothing_known(sx, key, alg)
    if end != 'wrong':
        sx.check(len(ran) == 1, 'ran once')
    sx.check(sx.eq(bytes(key.to_packet().content), body), 'unchanged')
    sx.reach('context')


def h_made(sx, tag, alg, version, usage, cipher, mode, n, bits):
    """Packets made from values and a passphrase."""
    fixed = cipher == 1
    phrase = b'passphrase'[:n] if fixed else sx.bytes('phrase', n)
    form = Form(sx, usage, cipher, mode, 8, 2, fixed)
    parts, values = secret_numbers(sx, alg, bits, fixed, not fixed)
    public = real.public_body(alg, KEY[alg], version=version)
    body = public + form.store(sx, version, phrase, parts)
    spec = None
    if usage in (254, 255):
        spec = s2k.parse_s2k_bytes(cipher, bytearray(s2k_octets(
            mode, 8, form.salt, 2)))[0]
    p = real.packet(6, public)
    cls = pk.SecretKeyPacket if tag == 5 else pk.SecretSubkeyPacket
    made = cls(1, version, p.creation_time, alg, p.expiration_days,
               p.modulus, p.exponent, p.prime, p.group_order,
               p.group_generator, p.key_value, spec, cipher,
               bytearray(form.iv), b'', usage != 254, usage == 254,
               passphrase=phrase, **dict(zip(NAMES[alg], values)))
    sx.check(made.type == tag, 'tag')
    sx.check(sx.eq(bytes(made.content), body), 'octets')
    again = real.packet(tag, bytes(made.content))
    again.decrypt(phrase)
    for name, v in zip(NAMES[alg], values):
        sx.check(getattr(again, name) == v, name)
    sx.reach('made')


def h_locked(sx, name, alg, sub, history):
    """What a locked key refuses, whatever was done before."""
    body = real.secret_body(alg, name)
    if sub:
        root = tk.TransferableSecretKey.from_packets(
            [real.packet(5, real.secret_body(17, 'dsa')),
             real.packet(7, body), binding()])
        key = root.subkeys[0]
    else:
        root = key = secret_key(body)
    locked = True
    for step in history:
        if step == 'u':
            key.unlock('')
            locked = False
        elif step == 'l':
            key.lock()
            locked = True
        elif step == 'U':
            root.unlock('')
            locked = False
        else:
            root.lock()
            locked = True
    hash_ = sx.choose('hash', [2, 8])
    data = sx.bytes('data', 4)
    m = msg.BinaryMessage(data, 'x', None)
    esk = None
    if alg == 1:
        esk = msg.PublicKeySessionKey(
            3, public_key=key.to_public_key(), symmetric_algorithm=7,
            session_key=bytes(bytearray(range(16))))
    elif alg == 16:
        esk = msg.PublicKeySessionKey.from_packet(real.packet(
            1, b'\x03' + bytes(bytearray(8)) + b'\x10\x00\x09\x01\x55'
            b'\x00\x0a\x02\x99'))
    sx.check(key.is_locked() is locked, 'state')
    if alg != 16:
        refused = refuses(sx, key.sign, m, 4, 0, hash_)
        sx.check(refused == locked, 'sign')
        refused = refuses(sx, m.sign, key, 4, 0, hash_)
        sx.check(refused == locked, 'sign a message')
    if esk is not None:
        refused = refuses(sx, esk.get_algorithm_and_session_key, key)
        sx.check(refused == (locked or alg == 16), 'session key')
        if not refused:
            sx.check(bytes(esk.get_algorithm_and_session_key(key)[1]) ==
                     bytes(bytearray(range(16))), 'session key read')
    sx.check(bytes(key.to_packet().content) == body, 'written')
    sx.reach('done')


# --- cases ---
def cases(tier):
    out = []
    thorough = tier != 'quick'
    hashes = (1, 2, 3, 8, 9, 10, 11)
    ciphers = (2, 3, 4, 7, 8, 9, 10, 11, 12, 13, 1)
    widths = [(9, 17, 33, 8), (64, 65, 1, 128), (130, 71, 72, 16),
              (20, 200, 3, 57)]
    k = 0
    for version, alg in [(4, 1), (4, 17), (4, 16), (3, 1)]:
        for usage in (0, 254, 255, 1, 3, 4, 7):
            if version == 3 and usage == 254:
                continue
            for cipher in ciphers:
                if usage < 254 and cipher != usage:
                    continue
                if alg in (16, 17) and not thorough and \
                        (ciphers.index(cipher) + alg + usage) % 3:
                    continue
                k += 1
                out.append(('h_unlock', dict(
                    alg=alg, version=version, usage=usage, cipher=cipher,
                    mode=(0, 1, 3)[k % 3], hash_=hashes[k % 7],
                    coded=(0, 3)[k % 2], n=(1, 5, 0, 20, -1)[k % 5],
                    bits=widths[(k * 7 // 3) % 4])))
            if usage == 0:
                for bits in widths:
                    out.append(('h_unlock', dict(
                        alg=alg, version=version, usage=0, cipher=0, mode=0,
                        hash_=2, coded=0, n=k % 3, bits=bits)))
    for alg, usage, cipher, mode, n, bits in [
            (1, 0, 0, 0, 3, (2047, 1024, 1024, 1023)),
            (1, 254, 9, 3, 3, (2047, 1024, 1024, 1023)),
            (1, 255, 3, 3, 3, (1023, 512, 512, 511)),
            (17, 254, 7, 3, 100, (160,)), (17, 255, 3, 1, 300, (256,)),
            (16, 254, 8, 0, 65, (2048,))]:
        out.append(('h_unlock', dict(
            alg=alg, version=4, usage=usage, cipher=cipher, mode=mode,
            hash_=8 if usage == 254 else 2, coded=0, n=n, bits=bits)))
    for alg in (1, 16, 17):
        for usage, cipher, mode in [(254, 7, 3), (255, 3, 1), (0, 0, 0),
                                    (7, 7, 0)]:
            out.append(('h_unlock_subkey', dict(alg=alg, usage=usage,
                                                cipher=cipher, mode=mode)))
    for version, alg, usage, cipher, mode in [
            (4, 1, 254, 9, 3), (4, 1, 255, 3, 1), (4, 17, 254, 2, 0),
            (4, 16, 255, 7, 3), (4, 17, 0, 0, 0), (4, 1, 0, 0, 0),
            (4, 17, 7, 7, 0), (3, 1, 255, 3, 3), (3, 1, 255, 7, 0),
            (3, 1, 3, 3, 0), (3, 1, 0, 0, 0), (4, 16, 254, 10, 1)]:
        for bits in (widths[:2] if not thorough else widths):
            out.append(('h_wrong', dict(alg=alg, version=version, usage=usage,
                                        cipher=cipher, mode=mode, bits=bits)))
        n = 1 if alg != 1 else 4
        for at in (2, 3, 8) + ((1, 4, 5, 6, 7, 9, 10) if thorough else ()):
            if version == 3 and at in (4, 8):
                # a bit count, in the clear
                continue
            if version == 3 and usage:
                # a change before the end garbles what follows, and its sum
                # may be the same by chance
                at = 24
            out.append(('h_changed', dict(
                alg=alg, version=version, usage=usage, cipher=cipher,
                mode=mode, bits=(16, 64, 33, 16) if n > 1 else (40,),
                at=at)))
    for version, alg, usage, cipher in [(4, 1, 254, 9), (4, 17, 255, 3),
                                        (4, 16, 0, 0), (3, 1, 255, 3)]:
        for n in (0, 1, 19):
            if n < (20 if usage == 254 else 2):
                out.append(('h_short', dict(alg=alg, version=version,
                                            usage=usage, cipher=cipher, n=n)))
    for tag in (5, 7):
        for usage in (254, 255):
            for cipher in (0, 3, 9):
                out.append(('h_stub', dict(tag=tag, cipher=cipher, mode=1,
                                           usage=usage, serial=0)))
                for serial in (0, 4, 16):
                    out.append(('h_stub', dict(
                        tag=tag, cipher=cipher, mode=2, usage=usage,
                        serial=serial)))
    for subs in (0, 1, 2):
        for wrong in [None] + list(range(subs + 1)):
            out.append(('h_all_or_none', dict(wrong=wrong, subs=subs)))
    for k, end in enumerate([None, 'raise', 'return', 'lock', 'wrong']):
        for alg in (17, 1, 16):
            for sub in (False, True):
                usage, cipher, mode = [(254, 9, 3), (255, 3, 1), (7, 7, 0),
                                       (0, 0, 0)][(k + alg + sub) % 4]
                out.append(('h_context', dict(
                    alg=alg, usage=usage, cipher=cipher, mode=mode, end=end,
                    sub=sub)))
    k = 0
    for tag in (5, 7):
        for version, alg in [(4, 1), (4, 17), (4, 16), (3, 1)]:
            for usage in (254, 255, 7, 1, 0):
                if version == 3 and usage == 254:
                    continue
                for cipher in ((9, 2, 10, 1, 13) if usage > 253 else
                               (usage,)):
                    k += 1
                    if cipher == 1 or thorough or usage < 254 or \
                            k % 2 == tag // 2 % 2:
                        out.append(('h_made', dict(
                            tag=tag, alg=alg, version=version, usage=usage,
                            cipher=cipher, mode=(3, 0, 1)[k % 3],
                            n=(4, 0, 9)[k % 3], bits=widths[k % 4])))
    for name, alg in [('rsa', 1), ('dsa', 17), ('elg', 16)]:
        for sub in (False, True):
            for history in ['', 'u', 'ul', 'ulu', 'U', 'UL', 'uL', 'Ul',
                            'uull'] + (['ulUl', 'UuLl', 'ULu']
                                       if thorough else []):
                out.append(('h_locked', dict(name=name, alg=alg, sub=sub,
                                             history=history)))
    return out
