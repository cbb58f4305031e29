"""Encrypted and compressed data (RFC 4880 sections 5.6, 5.7, 5.13, 5.14)."""
import bz2
import datetime
import zlib
from Crypto import Random
from pgp import message as msg
from pgp import utils
from pgp.packets import packets as pk
from hlib import real
from hlib.crypt import CIPHERS, decrypt_data, encrypt_data
from hlib.util import EDGES, be, long_octets, new_frame, refuses

WHEN = datetime.datetime(2014, 5, 13, 18, 30)
TIME = 1399986000
MDC = b'\xd3\x14'


def octets(sx, fixed, name, n):
    """IDEA is not within reach with a key that isn't fixed."""
    if fixed:
        return bytes(bytearray([(i * 41 + len(name)) & 0xff
                                for i in range(n)]))
    return sx.bytes(name, n)


def text_of(sx, n, at=EDGES):
    """The octets of a message; large ones are fixed but for some."""
    if n > 300:
        return long_octets(sx, 'data', n, at)
    return sx.bytes('data', n)


def literal_frame(data):
    return new_frame(11, b'b\x01x' + be(TIME, 4) + data)


def body_of(packet, tag):
    raw = bytes(bytes(packet))
    assert raw[:1] == be(0xc0 | tag, 1), raw
    first = bytearray(raw)[1]
    if first < 192:
        return raw[2:]
    if first < 224:
        return raw[3:]
    return raw[6:]


def is_literal(sx, m, data):
    sx.check(isinstance(m, msg.BinaryMessage), 'a literal message')
    sx.check(sx.eq(bytes(m.data), data), 'data')
    sx.check(m.filename == 'x', 'file name')


class Prefix(object):
    """Randomness of one's own, any octets but never those again."""

    def __init__(self, sx, fixed):
        self.sx = sx
        self.fixed = fixed
        self.reads = []

    def read(self, n):
        name = 'random%d' % len(self.reads)
        if self.fixed:
            out = bytes(bytearray([len(self.reads) * 16 + i & 0xff
                                   for i in range(n)]))
        else:
            out = self.sx.bytes(name, n)
        for other in self.reads:
            if len(other) == n:
                self.sx.assume(self.sx.no(self.sx.eq(out, other)))
        self.reads.append(out)
        return out


def h_encrypt(sx, alg, n, mdc, given):
    """What is written is what RFC 4880 says; it is made anew each time; it
    is read back."""
    idea = alg == 1
    rng = Prefix(sx, idea)
    sx.patch(Random, 'new', lambda *a, **k: rng)
    size = CIPHERS[alg][1]
    data = text_of(sx, n, ())
    kw = {}
    key = octets(sx, idea, 'key', CIPHERS[alg][2])
    if given:
        kw['session_key'] = key
    m = msg.BinaryMessage(data, 'x', WHEN)
    seen = []
    for turn in range(2):
        if mdc == 'default':
            w = m.public_key_encrypt(alg, **kw)
        else:
            w = m.public_key_encrypt(alg, integrity_protect=mdc, **kw)
        if not given:
            key = [r for r in rng.reads if len(r) == len(key)]
            sx.check(len(key) > turn, 'session key drawn')
            key = key[-1]
            if CIPHERS[alg][2] == size:
                # the prefix was drawn after it
                key = rng.reads[-2]
        packets = w.to_packets()
        sx.check(len(packets) == 1, 'packets')
        if mdc:
            body = body_of(packets[0], 18)
            sx.check(sx.eq(body[:1], b'\x01'), 'version')
            body = body[1:]
        else:
            body = body_of(packets[0], 9)
        plain = decrypt_data(alg, key, body, not mdc)
        frame = literal_frame(data)
        sx.check(len(plain) == size + 2 + len(frame) + (22 if mdc else 0),
                 'length')
        sx.check(sx.eq(plain[size:size + 2], plain[size - 2:size]), 'check')
        rest = plain[size + 2:]
        sx.check(sx.eq(rest[:len(frame)], frame), 'message')
        if mdc:
            sx.check(sx.eq(rest[len(frame):len(frame) + 2], MDC),
                     'detection code')
            sx.check(sx.eq(rest[len(frame) + 2:],
                           sx.digest('sha1', plain[:-20])), 'hash')
        # read back, as it is and from its octets
        is_literal(sx, w.message_data_obj.decrypt(alg, bytes(key)), data)
        raw = bytearray(bytes(packets[0]))
        again = pk.packet_from_packet_data(raw, 0)[1]
        obj = msg.SymmetricallyEncryptedMessageData.from_packet(again)
        sx.check(obj.check_session_key(alg, bytes(key)), 'session key fits')
        is_literal(sx, obj.decrypt(alg, bytes(key)), data)
        seen.append(plain[:size])
    if given:
        sx.check(sx.no(sx.eq(seen[0], seen[1])), 'same prefix')
    sx.reach('end')


def opened(body, mdc, alg, key):
    if mdc:
        packet = real.packet(18, b'\x01' + body)
    else:
        packet = real.packet(9, body)
    obj = msg.SymmetricallyEncryptedMessageData.from_packet(packet)
    return obj.decrypt(alg, key)


def h_protected(sx, alg, n, split):
    """Any prefix, check octets and detection code: read only if both are
    right."""
    idea = alg == 1
    size = CIPHERS[alg][1]
    key = octets(sx, idea, 'key', CIPHERS[alg][2])
    prefix = octets(sx, idea, 'prefix', size)
    data = text_of(sx, n, ())
    plain = literal_frame(data)
    if split == 'check':
        check = sx.bytes('check', 2)
        code = sx.digest('sha1', prefix + check + plain + MDC)
    else:
        check = prefix[-2:]
        if split == 'code':
            code = sx.bytes('code', 20)
        else:
            # right but for one octet
            code = bytearray(sx.digest('sha1', prefix + check + plain + MDC))
            code[split] = code[split] ^ sx.int('flip', 0, 255)
            code = bytes(code)
    good = sx.all(sx.eq(check, prefix[-2:]),
                  sx.eq(code, sx.digest('sha1',
                                        prefix + check + plain + MDC)))
    body = encrypt_data(alg, key, prefix, check, plain + MDC + code, False)
    try:
        m = opened(body, True, alg, key)
    except Exception:
        sx.check(sx.no(good), 'refused')
        sx.reach('refused')
        return
    sx.check(good, 'not authentic')
    is_literal(sx, m, data)
    sx.reach('read')


def h_changed(sx, alg, n, at):
    """A message is refused after any change of an octet of what the
    detection code protects."""
    size = CIPHERS[alg][1]
    key = sx.bytes('key', CIPHERS[alg][2])
    prefix = bytes(bytearray(range(size)))
    head = at - size - 2
    framing = (0, 1, 3, 9 + n, 10 + n)
    data = octets(sx, head in framing, 'data', n)
    plain = literal_frame(data)
    code = sx.digest('sha1', prefix + prefix[-2:] + plain + MDC)
    if head in framing:
        # the framing is another one
        flip = sx.choose('flip', [1, 2, 4, 8, 16, 32, 64, 128, 3, 0x3f, 0xff])
    else:
        flip = sx.int('flip', 1, 255)
    other = bytearray(prefix + prefix[-2:] + plain + MDC)
    other[at] = other[at] ^ flip
    other = bytes(other)
    body = encrypt_data(alg, key, other[:size], other[size:size + 2],
                        other[size + 2:] + code, False)
    sx.check(refuses(sx, opened, body, True, alg, key), 'change not seen')
    sx.reach('end')


def h_missing(sx, alg, kind, n):
    """Without a detection code in its place, or with more after it."""
    size = CIPHERS[alg][1]
    key = sx.bytes('key', CIPHERS[alg][2])
    prefix = sx.bytes('prefix', size)
    data = sx.bytes('data', n)
    if n >= 22:
        # no detection code by chance
        sx.assume(bytearray(data)[n - 22] != 0xd3)
    plain = literal_frame(data)
    start = prefix + prefix[-2:]
    good = False
    if kind == 'none':
        pass
    elif kind == 'alone':
        plain = MDC + sx.digest('sha1', start + MDC)
    elif kind == 'before':
        plain = MDC + sx.digest('sha1', start + MDC) + plain
    elif kind == 'between':
        both = plain + MDC
        plain = both + sx.digest('sha1', start + both) + plain
    elif kind == 'partial hash':
        # hashes the message only
        plain = plain + MDC + sx.digest('sha1', plain + MDC)
    elif kind == 'no header':
        plain = plain + MDC + sx.digest('sha1', start + plain)
    elif kind == 'no check':
        plain = plain + MDC + sx.digest('sha1', prefix + plain + MDC)
    elif kind == 'long header':
        head = b'\xd3\xff\x00\x00\x00\x14'
        plain += head
        code = sx.bytes('code', 20)
        want = sx.digest('sha1', start + plain)
        plain += code
        good = sx.eq(code, want)
    body = encrypt_data(alg, key, prefix, prefix[-2:], plain, False)
    try:
        m = opened(body, True, alg, key)
    except Exception:
        # a detection code has a one octet length
        sx.reach('refused')
        return
    sx.check(good, 'not authentic')
    is_literal(sx, m, data)
    sx.reach('read')


def h_unprotected(sx, alg, n):
    """Data without a detection code, of another implementation."""
    idea = alg == 1
    size = CIPHERS[alg][1]
    key = octets(sx, idea, 'key', CIPHERS[alg][2])
    prefix = octets(sx, idea, 'prefix', size)
    data = sx.bytes('data', n)
    body = encrypt_data(alg, key, prefix, prefix[-2:], literal_frame(data),
                        True)
    is_literal(sx, opened(body, False, alg, key), data)
    sx.reach('end')


def h_default(sx, phrase, n):
    """Data without any session key: IDEA, with the MD5 of the passphrase."""
    data = sx.bytes('data', n)
    key = sx.digest('md5', phrase.encode('utf8'))
    prefix = b'12345678'
    body = encrypt_data(1, key, prefix, prefix[-2:], literal_frame(data),
                        True)
    w = msg.open_pgp_message_from_packets([real.packet(9, body)])
    is_literal(sx, w.get_message(phrase), data)
    is_literal(sx, w.get_message(phrase.encode('utf8')), data)
    sx.reach('end')


def h_content(sx, alg, mdc, kind, n):
    """Messages within encrypted messages."""
    key = sx.bytes('key', CIPHERS[alg][2])
    size = CIPHERS[alg][1]
    prefix = sx.bytes('prefix', size)
    data = sx.bytes('data', n)
    plain = literal_frame(data)
    if kind == 'text':
        plain = new_frame(11, b'u\x00' + be(TIME, 4) + b'text')
    elif kind == 'compressed':
        plain = new_frame(8, b'\x00' + plain)
    elif kind == 'looks like a code':
        plain = literal_frame(MDC + bytes(bytearray(20)))
        plain = plain[:-22] + MDC + sx.bytes('fake', 20)
        data = plain[-22:]
    elif kind == 'partial':
        body = b'b\x01x' + be(TIME, 4) + bytes(bytearray(505)) + data
        plain = b'\xcb\xe9' + body[:512] + new_frame(0, body[512:])[1:]
        data = bytes(bytearray(505)) + data
    if mdc:
        plain += MDC
        plain += sx.digest('sha1', prefix + prefix[-2:] + plain)
    body = encrypt_data(alg, key, prefix, prefix[-2:], plain, not mdc)
    m = opened(body, mdc, alg, key)
    if kind == 'text':
        sx.check(isinstance(m, msg.TextMessage), 'text')
        sx.check(m.data == 'text', 'text data')
    elif kind == 'compressed':
        sx.check(isinstance(m, msg.CompressedMessageWrapper), 'compressed')
        is_literal(sx, m.get_message(), data)
    else:
        is_literal(sx, m, data)
    sx.reach('end')


def compress(alg, data):
    if alg == 0:
        return data
    if alg == 1:
        c = zlib.compressobj(6, zlib.DEFLATED, -13)
        return c.compress(data) + c.flush()
    if alg == 2:
        return zlib.compress(data)
    return bz2.compress(data)


def decompress(alg, data):
    data = bytes(data)
    if alg == 0:
        return data
    if alg == 1:
        d = zlib.decompressobj(-15)
        return d.decompress(data) + d.flush()
    if alg == 2:
        return zlib.decompress(data)
    return bz2.decompress(data)


def h_compress(sx, alg, level, n):
    data = text_of(sx, n)
    m = msg.BinaryMessage(data, 'x', WHEN)
    w = m.compress(alg, level)
    body = body_of(w.to_packets()[0], 8)
    sx.check(sx.eq(body[:1], be(alg, 1)), 'algorithm')
    sx.check(sx.eq(decompress(alg, body[1:]), literal_frame(data)), 'data')
    is_literal(sx, w.get_message(), data)
    back = msg.open_pgp_message_from_packets([real.packet(8, body)])
    sx.check(isinstance(back, msg.CompressedMessageWrapper), 'compressed')
    is_literal(sx, back.get_message(), data)
    # twice
    two = w.compress(3 - alg, level)
    is_literal(sx, two.get_message().get_message(), data)
    sx.reach('end')


def h_decompress(sx, alg, n, twice):
    """... by another implementation."""
    data = text_of(sx, n)
    plain = literal_frame(data)
    if twice:
        plain = new_frame(8, be(3 - alg, 1) + compress(3 - alg, plain))
    w = msg.open_pgp_message_from_packets(
        [real.packet(8, be(alg, 1) + compress(alg, plain))])
    m = w.get_message()
    if twice:
        m = m.get_message()
    is_literal(sx, m, data)
    sx.check(sx.eq(body_of(w.to_packets()[0], 8),
                   be(alg, 1) + compress(alg, plain)), 'written')
    sx.reach('end')


def h_chunks(sx, alg, sizes):
    """Data given in pieces."""
    c = utils.get_compression_instance(alg, 6)
    data = b''
    out = b''
    for i, n in enumerate(sizes):
        d = sx.bytes('d%d' % i, n)
        data += d
        out += c.compress(d)
    out += c.flush()
    sx.check(sx.eq(decompress(alg, out), data), 'compressed')
    packed = compress(alg, data)
    d = utils.get_compression_instance(alg, 6)
    back = b''
    cuts = sorted(set([0, 1, len(packed) // 2, max(0, len(packed) - 3),
                       len(packed)]))
    for a, b in zip(cuts, cuts[1:]):
        back += d.decompress(packed[a:b])
    back += d.flush()
    sx.check(sx.eq(back, data), 'decompressed')
    sx.reach('end')


def h_unknown(sx, alg):
    """Algorithms nobody knows are refused."""
    w = msg.open_pgp_message_from_packets(
        [real.packet(8, be(alg, 1) + literal_frame(b'data'))])
    sx.check(refuses(sx, w.get_message), 'decompressed')
    m = msg.BinaryMessage(b'data', 'x', WHEN)
    sx.check(refuses(sx, m.compress, alg, 6), 'compressed')
    sx.reach('end')


# --- cases ---
def cases(tier):
    out = []
    big = tier != 'quick'
    blocks = {1: 8, 2: 8, 3: 8, 4: 8, 7: 16, 8: 16, 9: 16, 10: 16, 11: 16,
              12: 16, 13: 16}
    k = 0
    for alg in sorted(blocks):
        # every length modulo the size of a block
        ns = list(range(0, blocks[alg] + 1, 1 if alg in (3, 7) else 5))
        if big:
            ns = list(range(0, 2 * blocks[alg] + 1)) + [100, 200]
        for n in ns:
            for mdc in (True, False):
                out.append(('h_encrypt', dict(alg=alg, n=n, mdc=mdc,
                                              given=bool(k % 3))))
                k += 1
        out.append(('h_encrypt', dict(alg=alg, n=5, mdc='default',
                                      given=alg == 1)))
        for n in ns[::2]:
            out.append(('h_unprotected', dict(alg=alg, n=n)))
        for n, split in () if alg == 1 else ((0, 'check'), (5, 'code'), (9, 0), (17, 19)):
            out.append(('h_protected', dict(alg=alg, n=n, split=split)))
    for alg in (3, 7):
        for n in (0, 1, 8, 180, 200) if not big else range(0, 34):
            for split in ('check', 'code', 11):
                out.append(('h_protected', dict(alg=alg, n=n, split=split)))
        size = blocks[alg]
        for at in range(size - 1 if not big else 0, size + 2 + 9 + 5 + 2):
            out.append(('h_changed', dict(alg=alg, n=5, at=at)))
        for kind in ('none', 'alone', 'before', 'between', 'partial hash',
                     'no header', 'no check', 'long header'):
            for n in (0, 3, 13, 20, 22) if not big else range(0, 40):
                out.append(('h_missing', dict(alg=alg, kind=kind, n=n)))
        for kind in ('text', 'compressed', 'looks like a code', 'partial'):
            for mdc in (True, False):
                out.append(('h_content', dict(alg=alg, mdc=mdc, kind=kind,
                                              n=4)))
    for n in (0, 3, 20):
        out.append(('h_default', dict(phrase='secret', n=n)))
    for n in (0, 1, 40) if not big else (0, 1, 40, 300, 3000):
        for alg in (0, 1, 2, 3):
            for level in (1, 6, 9):
                out.append(('h_compress', dict(alg=alg, level=level, n=n)))
            for twice in (False, True):
                out.append(('h_decompress', dict(alg=alg, n=n,
                                                 twice=twice)))
    for n, mdc in [(9000, True), (20000, False)]:
        out.append(('h_encrypt', dict(alg=1, n=n, mdc=mdc, given=True)))
    out.append(('h_protected', dict(alg=9, n=300, split='code')))
    for n in (200, 5000, 9000, 70000):
        for alg in (0, 1, 2, 3):
            out.append(('h_compress', dict(alg=alg, level=6, n=n)))
            out.append(('h_decompress', dict(alg=alg, n=n, twice=True)))
    for alg in (0, 1, 2, 3):
        for sizes in ([4], [0, 3], [2, 5, 1], [200, 1]):
            out.append(('h_chunks', dict(alg=alg, sizes=sizes)))
    for alg in (4, 5, 100, 110, 255):
        out.append(('h_unknown', dict(alg=alg)))
    return out
