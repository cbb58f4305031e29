"""Keys for keyrings, and what is in a keyring file."""
from pgp import transferrable_keys as tk
from pgp.packets.parsers import parse_binary_packet_data
from hlib import real
from hlib.keys import sig4_body, created, issuer
from hlib.util import be, mpi, new_frame, new_length, old_frame

KEEP = []
# A and B have the same 32-bit key ID, A and C the same 64-bit key ID.
FP = {'A': '0419DF30D2DBA7F206D08CE7358261EAEEBCA5CB',
      'B': '1B655EE7CAF308B4552E6BA09DD26BAAEEBCA5CB'}
V3_N = (3 << 446) + (12345 << 300) + 0x358261EAEEBCA5CB
IDS = {'A': '358261EAEEBCA5CB', 'B': '9DD26BAAEEBCA5CB',
       'C': '358261EAEEBCA5CB'}


def primary(which, secret):
    f = real.secret_body if secret else real.public_body
    if which == 'A':
        return f(1, 'rsa', 1300025414)
    if which == 'B':
        return f(1, 'rsa_b', 1300008577)
    if which == 'E':
        # nothing but the key
        return f(17, 'dsa', 1300000777)
    if which == 'F':
        # a large one
        return f(1, 'rsa_l', 1300000999)
    if which == 'C':
        body = (b'\x03' + be(1300000000, 4) + b'\x00\x00\x01' + mpi(V3_N)
                + mpi(17))
        if secret:
            part = real.secret_part(1, 'rsa')
            body += (b'\x00' + part
                     + be(sum(bytearray(part)) & 0xffff, 2))
        return body
    return f(17, 'dsa', 1300000000)


def identity(sx, which):
    """Fingerprint and key ID."""
    body = primary(which, False)
    if which == 'C':
        n, e = mpi(V3_N)[2:], mpi(17)[2:]
        return sx.hexdigest('md5', n + e), IDS['C']
    fp = sx.hexdigest('sha1', b'\x99' + be(len(body), 2) + body)
    return fp, fp[-16:]


def material(sx, which, label, secret=False, more=True):
    """The packets of a key as (tag, body) pairs; user ID and signature
    values are symbolic."""
    if which == 'E':
        return [(5 if secret else 6, primary(which, secret))]
    alg = 17 if which == 'D' else 1
    text = sx.text('user %s %s' % (which, label), 2, 0x61, 0x7a)
    value = sx.bytes('value %s %s' % (which, label), 2)
    number = b'\x00\x10' + value
    sx.assume(bytearray(value)[0] >= 128)

    def sig(type_, n):
        return sig4_body(type_, alg, 2, created(be(1300500000 + n, 4)),
                         issuer(b'12345678'), b'ab',
                         number if alg == 1 else number + mpi(n))
    out = [(5 if secret else 6, primary(which, secret)),
           (13, b'U ' + text.encode('ascii') + b' <a@b>'), (2, sig(0x10, 1))]
    if which == 'F':
        for i in range(6):
            out += [(13, b'U%d <a%d@b>' % (i, i) + b'x' * 50 * i),
                    (2, sig(0x13, 10 + i))]
        photo = b'\x10\x00\x01\x01' + bytes(12) + bytes(bytearray(
            [(i * 7 + i // 251) & 0xff for i in range(11000)]))
        out += [(17, new_length(len(photo) + 1) + b'\x01' + photo),
                (2, sig(0x10, 30))]
    if which == 'D':
        text = sx.text('other user %s %s' % (which, label), 1, 0x61, 0x7a)
        out += [(13, b'V' + text.encode('ascii') + b'Q'), (2, sig(0x10, 5)),
                (13, b'W <w@w>')]
    if which == 'D' and more:
        out += [(17, b'\x12\x01\x10\x00\x01\x01' + bytes(13)),
                (2, sig(0x13, 2))]
        sub = (real.secret_body if secret else real.public_body)(
            16, 'elg', 1300000001)
        out += [(7 if secret else 14, sub), (2, sig(0x18, 3))]
    return out


def octets(packets, old, trust=False):
    out = b''
    for tag, body in packets:
        f = old_frame if old and tag < 16 else new_frame
        out = out + f(tag, body)
        if trust and tag == 2:
            out = out + f(12, b'\x06\x00')
    return out


def key_of(packets, old=False):
    data = octets(packets, old)
    parsed = list(parse_binary_packet_data(data))
    cls = tk.TransferableSecretKey if packets[0][0] == 5 \
        else tk.TransferablePublicKey
    key = cls.from_packets(parsed)
    KEEP.append(key)
    return key


def number(data):
    v = 0
    for b in bytearray(data):
        v = (v << 8) | b
    return v


def groups(data):
    """The keys in a file, each as its (tag, body) pairs."""
    out = []
    pos = 0
    data = bytearray(data)
    while pos < len(data):
        head = data[pos]
        if not head & 0x80:
            return None
        if head & 0x40:
            tag = head & 0x3f
            first = data[pos + 1]
            if first < 192:
                n, width = first, 1
            elif first < 224:
                n, width = ((first - 192) << 8) + data[pos + 2] + 192, 2
            elif first == 255:
                n, width = number(data[pos + 2:pos + 6]), 5
            else:
                return None
        else:
            tag = (head >> 2) & 15
            if head & 3 == 3:
                return None
            width = 1 << (head & 3)
            n = number(data[pos + 1:pos + 1 + width])
        pos += 1 + width
        if pos + n > len(data):
            return None
        if tag in (5, 6):
            out.append([])
        elif not out:
            return None
        out[-1].append((tag, bytes(data[pos:pos + n])))
        pos += n
    return out


def pairs(key):
    return [(p.type, bytes(p.content)) for p in key.to_packets()]


def same_packets(sx, got, want, trust=True):
    """Are these the same packets?"""
    if not trust:
        got = [p for p in got if p[0] != 12]
        want = [p for p in want if p[0] != 12]
    if [p[0] for p in got] != [p[0] for p in want]:
        return False
    return sx.all(*[sx.eq(p[1], q[1]) for p, q in zip(got, want)])


def file_is(sx, data, model):
    """Does a file hold exactly these keys, in any order?  The model maps
    names of keys to their pairs."""
    got = groups(data)
    if got is None or len(got) != len(model):
        return False
    ok = []
    for want in model.values():
        mine = [g for g in got if g[0][0] == want[0][0]
                and len(g[0][1]) == len(want[0][1])
                and sx.concrete(g[0][1]) == sx.concrete(want[0][1])]
        if len(mine) != 1:
            return False
        ok.append(same_packets(sx, mine[0], want))
    return sx.all(*ok)
