"""Octets of keys and signatures, laid out as RFC 4880 says, with symbolic
parts, and the octets RFC 4880 section 5.2.4 says are hashed."""
from hlib.util import be, exact_mpi, new_frame, new_length

MPIS = {1: 2, 2: 2, 3: 2, 16: 3, 20: 3, 17: 4}
SIG_MPIS = {1: 1, 3: 1, 17: 2, 20: 2}
BITS = (17, 9, 12, 10)


def public_body(sx, name, version=4, alg=1, bits=BITS, time=None,
                days=None):
    """The body of a public key packet."""
    body = be(version, 1)
    body += sx.bytes(name + '.time', 4) if time is None else be(time, 4)
    if version < 4:
        body += sx.bytes(name + '.days', 2) if days is None else days
    body += be(alg, 1)
    for i in range(MPIS[alg]):
        body += exact_mpi(sx, '%s.mpi%d' % (name, i), bits[i % len(bits)])[0]
    return body


def secret_body(sx, name, body, usage=0, n=3):
    """... of a secret key packet with that public part."""
    iv = b''
    if usage == 254:
        body += b'\xfe\x09\x03\x08' + sx.bytes(name + '.salt', 8) + b'\x60'
        iv = sx.bytes(name + '.iv', 16)
    else:
        body += be(usage, 1)
    return body + iv + sx.bytes(name + '.secret', n)


def subpacket(type_, data, critical=False):
    return (new_length(len(data) + 1) + be(type_ | (128 if critical else 0), 1)
            + data)


def created(time4):
    return subpacket(2, time4)


def issuer(key8):
    return subpacket(16, key8)


def sig4_body(type_, pk, hash_, hashed, unhashed, hash2, mpis):
    return (b'\x04' + be(type_, 1) + be(pk, 1) + be(hash_, 1)
            + be(len(hashed), 2) + hashed + be(len(unhashed), 2) + unhashed
            + hash2 + mpis)


def sig3_body(type_, time4, key8, pk, hash_, hash2, mpis, version=3):
    return (be(version, 1) + b'\x05' + be(type_, 1) + time4 + key8
            + be(pk, 1) + be(hash_, 1) + hash2 + mpis)


def hashed_key(body):
    return b'\x99' + be(len(body), 2) + body


def hashed_user(tag, body, version):
    if version < 4:
        return body
    return be({13: 0xb4, 17: 0xd1}[tag], 1) + be(len(body), 4) + body


def hashed_trailer(version, type_, time4, pk, hash_, hashed):
    if version < 4:
        return be(type_, 1) + time4
    first = (b'\x04' + be(type_, 1) + be(pk, 1) + be(hash_, 1)
             + be(len(hashed), 2) + hashed)
    return first + b'\x04\xff' + be(len(first), 4)
