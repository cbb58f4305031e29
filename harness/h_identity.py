"""Fingerprints, key IDs and sizes of keys."""
import datetime

from pgp import transferrable_keys as tk
from pgp.packets import constants as C
from pgp.packets import packets as pk
from hlib import real
from hlib.keys import MPIS, hashed_key, public_body, secret_body
from hlib.util import be, exact_mpi, new_frame, old_frame

FIELDS = {1: ['modulus_n', 'exponent_e'], 2: ['modulus_n', 'exponent_e'],
          3: ['modulus_n', 'exponent_e'],
          16: ['prime_p', 'group_generator_g', 'key_value_y'],
          20: ['prime_p', 'group_generator_g', 'key_value_y'],
          17: ['prime_p', 'group_order_q', 'group_generator_g',
               'key_value_y']}


def expected(sx, version, alg, body, numbers):
    """(fingerprint, key ID) as RFC 4880 section 12.2 says."""
    if version < 4:
        data = b''.join([octets for _, octets in numbers[:2]])
        low = (bytes(bytearray(8)) + numbers[0][1])[-8:]
        return sx.hexdigest('md5', data).upper(), low
    fp = sx.hexdigest('sha1', hashed_key(body)).upper()
    return fp, sx.digest('sha1', hashed_key(body))[-8:]


def id_octets(text):
    """The octets a key ID is written for."""
    return bytes(bytearray(
        [int(text[i:i + 2], 16) for i in range(0, len(text), 2)]))


def make(sx, version, alg, bits, time=None):
    body = be(version, 1) + (sx.bytes('time', 4) if time is None else
                             be(time, 4))
    if version < 4:
        body += sx.bytes('days', 2)
    body += be(alg, 1)
    numbers = []
    for i in range(MPIS[alg]):
        octets, value = exact_mpi(sx, 'mpi%d' % i, bits[i % len(bits)])
        body += octets
        numbers.append((value, octets[2:]))
    return body, numbers


def same_id(sx, key, fp, low, what):
    sx.check(sx.eq(key.fingerprint, fp), what + ' fingerprint')
    kid = key.key_id
    sx.check(len(kid) == 16, what + ' key ID length')
    sx.check(kid == kid.upper(), what + ' key ID case')
    sx.check(sx.eq(id_octets(kid), low), what + ' key ID')


def h_packet(sx, version, alg, bits, tag, old):
    """A key packet knows the fingerprint of its octets."""
    body, numbers = make(sx, version, alg, bits)
    fp, low = expected(sx, version, alg, body, numbers)
    full = body
    if tag in (5, 7):
        full = secret_body(sx, 'key', body, sx.choose('usage', [0, 254]), 4)
    frame = (old_frame if old else new_frame)(tag, full)
    p = pk.packet_from_packet_data(bytearray(frame), 0)[1]
    same_id(sx, p, fp, low, 'packet')
    sx.reach('packet')


def h_object(sx, version, alg, bits, tag, old):
    """A key knows it, too, also when it is a secret one."""
    body, numbers = make(sx, version, alg, bits)
    fp, low = expected(sx, version, alg, body, numbers)
    full = body
    if tag in (5, 7):
        full = secret_body(sx, 'key', body, 254, 4)
    frame = (old_frame if old else new_frame)(tag, full)
    p = pk.packet_from_packet_data(bytearray(frame), 0)[1]
    if tag == 6:
        key = tk.TransferablePublicKey.from_packets([p])
    elif tag == 5:
        key = tk.TransferableSecretKey.from_packets([p])
    else:
        primary = tk.TransferablePublicKey.from_packets(
            [real.packet(6, real.public_body(17, 'dsa'))])
        class_ = tk.PublicSubkey if tag == 14 else tk.SecretSubkey
        key = class_.from_packet(primary, p)
    same_id(sx, key, fp, low, 'key')
    sx.check(key.bit_length == bits[0], 'bit length')
    if tag in (5, 7):
        public = key.to_public_key()
        same_id(sx, public, fp, low, 'public key')
        sx.check(public.bit_length == bits[0], 'public bit length')
    for form in (C.OLD_PACKET_HEADER_TYPE, C.NEW_PACKET_HEADER_TYPE):
        same_id(sx, key.to_packet(form), fp, low, 'written')
    sx.reach('object')


def h_values(sx, version, alg, bits, never):
    """A key made from values has the one of what it is written as."""
    time = sx.int('time', 0, 0x6fffffff) if version < 4 else \
        sx.int('time', 0x53000000, 0x53003fff)
    body, numbers = make(sx, version, alg, bits, time)
    created = datetime.datetime.fromtimestamp(time)
    expires = None
    if version < 4:
        days = real.number(body[5:7])
        if never:
            sx.assume(days == 0)
        else:
            sx.assume(days > 0)
            sx.assume(days < 4000)
            expires = created + datetime.timedelta(days=days)
    key = tk.TransferablePublicKey(
        version, alg, created, expires,
        **dict(zip(FIELDS[alg], [v for v, _ in numbers])))
    fp, low = expected(sx, version, alg, body, numbers)
    same_id(sx, key, fp, low, 'key')
    sx.check(key.bit_length == bits[0], 'bit length')
    sx.check(sx.eq(bytes(key.to_packet().content), body), 'written')
    # ... and another one when it is changed
    later = created + datetime.timedelta(seconds=sx.choose('later',
                                                           [1, 86400]))
    if version >= 4:
        key.creation_time = later
        sx.check(key.fingerprint != fp, 'changed time')
        key.creation_time = created
        same_id(sx, key, fp, low, 'restored')
    name = FIELDS[alg][sx.choose('field', [0, 1])]
    old = getattr(key, name)
    setattr(key, name, old ^ 1)
    sx.check(key.fingerprint != fp, 'changed number')
    sx.reach('values')


def h_unlocked(sx, alg, name, version):
    """Unlocking and locking do not change it."""
    time = sx.int('time', 0x50000000, 0x5000ffff)
    body = real.public_body(alg, name, time, version)
    numbers = [(None, be(real.KEYS[name][c],
                         (real.KEYS[name][c].bit_length() + 7) // 8))
               for c in real.PUBLIC[alg]]
    fp, low = expected(sx, version, alg, body, numbers)
    key = tk.TransferableSecretKey.from_packets(
        [real.packet(5, real.secret_body(alg, name, time, version))])
    same_id(sx, key, fp, low, 'locked')
    key.unlock('')
    same_id(sx, key, fp, low, 'unlocked')
    sx.check(key.bit_length == real.KEYS[name][
        real.PUBLIC[alg][0]].bit_length(), 'bit length')
    same_id(sx, key.to_public_key(), fp, low, 'public')
    key.lock()
    same_id(sx, key, fp, low, 'locked again')
    sx.reach('unlocked')


# --- cases ---
def cases(tier):
    thorough = tier != 'quick'
    out = []
    sizes = [(9, 17), (17, 9, 12, 10), (64, 2), (65, 17, 9, 1), (60, 3),
             (72, 17, 11), (128, 8, 7), (1, 1), (8, 16)]
    if thorough:
        sizes += [(n, 17) for n in range(56, 74)] + [(512, 160, 511),
                                                     (1023, 17, 1023)]
    for version in (2, 3, 4):
        for alg in (1, 2, 3, 16, 17, 20):
            if version < 4 and alg > 3:
                continue
            for i, bits in enumerate(sizes):
                for tag in (6, 5, 14, 7):
                    if version < 4 and tag in (14, 7):
                        continue
                    if not thorough and (i + alg + tag) % 3 and i > 1:
                        continue
                    for old in (False, True):
                        if old == bool(i % 2) and not thorough:
                            continue
                        out.append(('h_packet', dict(
                            version=version, alg=alg, bits=list(bits),
                            tag=tag, old=old)))
                        out.append(('h_object', dict(
                            version=version, alg=alg, bits=list(bits),
                            tag=tag, old=old)))
                if thorough or not (i + alg) % 2:
                    out.append(('h_values', dict(version=version, alg=alg,
                                                 bits=list(bits),
                                                 never=bool(i % 3))))
    for version, alg, bits, tag in [(4, 1, (2048, 17), 6),
                                    (3, 1, (2047, 17), 6),
                                    (4, 17, (1024, 160, 1023, 1021), 14)]:
        out.append(('h_packet', dict(version=version, alg=alg,
                                     bits=list(bits), tag=tag, old=True)))
    for alg, name, version in [(1, 'rsa', 4), (1, 'rsa', 3), (1, 'rsa_b', 2),
                               (3, 'rsa_s', 4), (1, 'rsa_l', 4),
                               (17, 'dsa', 4), (16, 'elg', 4),
                               (20, 'elg_b', 4), (2, 'rsa_b', 4)]:
        out.append(('h_unlocked', dict(alg=alg, name=name, version=version)))
    return out
