"""Signing and verifying."""
import datetime

from Crypto.PublicKey import DSA, RSA
from Crypto.Random import random as strong
from Crypto.Signature import PKCS1_v1_5
from pgp import message as msg
from pgp import transferrable_keys as tk
from pgp import utils
from pgp.packets import signature_subpackets as sp
from pgp.packets.parsers import parse_binary_packet_data
from pgp.signature import BaseSignature
from hlib import real
from hlib.keys import (hashed_key, hashed_trailer, hashed_user, sig3_body,
                       sig4_body, subpacket)
from hlib.util import be, long_octets, long_text, new_length, refuses

HASHES = {1: 'md5', 2: 'sha1', 3: 'ripemd160', 8: 'sha256', 9: 'sha384',
          10: 'sha512', 11: 'sha224'}
WHEN = datetime.datetime(2015, 1, 2, 3, 4, 5)


class Draws(object):
    """A strong random number generator that keeps what it gave."""

    given = None
    start = 1000

    def __init__(self, *args):
        pass

    def randint(self, a, b):
        Draws.given.append((a, b))
        return Draws.start + 2 * len(Draws.given) + 1

    def randrange(self, a, b=None):
        if b is None:
            a, b = 0, a
        return self.randint(a, b - 1)


def secret_key(alg, name, version=4):
    key = tk.TransferableSecretKey.from_packets(
        [real.packet(5, real.secret_body(alg, name, version=version))])
    key.unlock('')
    return key


def public_key(alg, name, version=4):
    return tk.TransferablePublicKey.from_packets(
        [real.packet(6, real.public_body(alg, name, version=version))])


def item_of(sx, kind, version, tag=''):
    """(what is signed, its octets, signature types)"""
    kind, _, size = kind.partition(':')
    size = int(size or 0)
    if kind in ('binary', 'bytes'):
        data = sx.bytes(tag + 'data', 4) if not size else \
            long_octets(sx, tag + 'data', size)
        if kind == 'bytes':
            return data, data, 0
        return msg.BinaryMessage(data, 'name', WHEN), data, 0
    if kind in ('text', 'str'):
        if size:
            data = long_text(sx, tag + 'data', size).decode('ascii')
        else:
            data = sx.text(tag + 'data', 3)
        raw = data.encode('utf8')
        if kind == 'str':
            return data, raw, 0
        return msg.TextMessage(data, 'name', WHEN), raw, 0
    body = real.public_body(17, 'dsa_b')
    primary = tk.TransferablePublicKey.from_packets([real.packet(6, body)])
    KEEP.append(primary)
    if kind == 'key':
        return primary, hashed_key(body), 0x1f
    if kind == 'sub':
        sbody = real.public_body(16, 'elg')
        sub = tk.PublicSubkey.from_packet(primary, real.packet(14, sbody))
        return sub, hashed_key(body) + hashed_key(sbody), 0x18
    if kind == 'uid':
        uid = sx.bytes(tag + 'uid', 3) if not size else \
            long_text(sx, tag + 'uid', size)
        if not size:
            for b in bytearray(uid):
                sx.assume(b < 128)
        return tk.UserID.from_packet(primary, real.packet(13, uid)), \
            hashed_key(body) + hashed_user(13, uid, version), 0x13
    data = b'\x10\x00\x01\x01' + bytes(bytearray(12)) + \
        (sx.bytes(tag + 'attr', 4) if not size else
         long_octets(sx, tag + 'attr', size))
    a = new_length(len(data) + 1) + b'\x01' + data
    return tk.UserAttribute.from_packet(primary, real.packet(17, a)), \
        hashed_key(body) + hashed_user(17, a, version), 0x10


KEEP = []


def split_packet(packet):
    """The fields of a signature packet, as RFC 4880 lays them out."""
    body = bytes(packet.content)
    if bytearray(body)[0] == 3:
        return dict(version=3, five=body[1:2], type=body[2:3],
                    time=body[3:7], issuer=body[7:15], pk=body[15:16],
                    hash=body[16:17], hash2=body[17:19], mpis=body[19:],
                    hashed=b'', unhashed=b'')
    n = bytearray(body)[4] * 256 + bytearray(body)[5]
    k = 6 + n
    m = bytearray(body)[k] * 256 + bytearray(body)[k + 1]
    u = k + 2
    return dict(version=4, type=body[1:2], pk=body[2:3], hash=body[3:4],
                hashed=body[6:k], unhashed=body[u:u + m],
                hash2=body[u + m:u + m + 2], mpis=body[u + m + 2:])


def join_packet(f):
    if f['version'] == 3:
        return real.packet(2, b'\x03\x05' + f['type'] + f['time'] +
                           f['issuer'] + f['pk'] + f['hash'] + f['hash2'] +
                           f['mpis'])
    return real.packet(2, b'\x04' + f['type'] + f['pk'] + f['hash'] +
                       be(len(f['hashed']), 2) + f['hashed'] +
                       be(len(f['unhashed']), 2) + f['unhashed'] +
                       f['hash2'] + f['mpis'])


def areas(octets):
    """The subpackets of an area (all short here), as (type octet, data)."""
    out = []
    i = 0
    while i < len(octets):
        n = bytearray(octets)[i]
        out.append((bytearray(octets)[i + 1], octets[i + 2:i + 1 + n]))
        i += 1 + n
    return out


def numbers_of(mpis, n):
    out = []
    i = 0
    for _ in range(n):
        bits = bytearray(mpis)[i] * 256 + bytearray(mpis)[i + 1]
        size = (bits + 7) // 8
        out.append(real.number(mpis[i + 2:i + 2 + size]))
        i += 2 + size
    assert i == len(mpis)
    return tuple(out)


def genuine(sx, alg, name, hash_, octets, values):
    """Whether these are a signature of octets, by the library itself."""
    h = utils.get_hash_instance(hash_)
    h.update(octets)
    k = real.KEYS[name]
    if alg in (1, 3):
        size = (k['n'].bit_length() + 7) // 8
        return PKCS1_v1_5.new(RSA.construct((k['n'], k['e']))).verify(
            h, be(values[0], size))
    q = k['q']
    digest = h.digest()[:(q.bit_length() + 7) // 8]
    return DSA.construct((k['y'], k['g'], k['p'], q)).verify(
        real.number(digest), values)


def key_id_of(sx, alg, name, version):
    if version < 4:
        return be(real.KEYS[name]['n'], 8)
    body = real.public_body(alg, name)
    return sx.digest('sha1', hashed_key(body))[-8:]


def h_sign(sx, alg, name, kver, version, hash_, kind, type_, extra):
    """What a key signs is a signature with all it must say."""
    del KEEP[:]
    now = sx.int('now', 1400000000, 1400065535)
    sx.clock(now)
    key = secret_key(alg, name, kver)
    item, octets, t = item_of(sx, kind, version)
    if type_ is None:
        type_ = t
    args = ()
    more = []
    if extra == 'list':
        value = sx.bytes('policy', 2)
        for b in bytearray(value):
            sx.assume(b < 128)
        more = [(26, value)]
        args = ([sp.PolicyURISubpacket(False, value.decode('ascii'))],)
        before = list(args[0])
    sig = key.sign(item, version, type_, hash_, *args)
    if args:
        sx.check(args[0] == before, 'list of the caller')
    packet = sig.to_packet()
    f = split_packet(packet)
    kid = key_id_of(sx, alg, name, kver)
    sx.check(f['version'] == version, 'version')
    sx.check(sx.eq(f['type'], be(type_, 1)), 'type')
    sx.check(sx.eq(f['pk'], be(alg, 1)), 'public key algorithm')
    sx.check(sx.eq(f['hash'], be(hash_, 1)), 'hash algorithm')
    time4 = be(now, 4)
    if version == 3:
        sx.check(sx.eq(f['time'], time4), 'time')
        sx.check(sx.eq(f['issuer'], kid), 'issuer')
    else:
        got = areas(f['hashed'])
        want = [(2, time4), (16, kid)] + more
        sx.check(sorted(g[0] for g in got) == sorted(w[0] for w in want),
                 'hashed subpackets')
        for type2, data in want:
            sx.check(sx.either(*[sx.eq(g[1], data) for g in got
                                if g[0] == type2]), 'subpacket %d' % type2)
        sx.check(f['unhashed'] == b'', 'unhashed subpackets')
    full = octets + hashed_trailer(version, type_, time4, alg, hash_,
                                   f['hashed'])
    sx.check(sx.eq(f['hash2'], sx.digest(HASHES[hash_], full)[:2]),
             'left two octets')
    sx.check(genuine(sx, alg, name, hash_, full, numbers_of(
        f['mpis'], 2 if alg == 17 else 1)), 'genuine')
    sx.check(list(sig.issuer_key_ids) == [key.key_id], 'issuer key IDs')
    sx.check(sx.eq(sig.creation_time,
                   datetime.datetime.fromtimestamp(now)), 'creation time')
    if kind.split(':')[0] not in ('bytes', 'str'):
        pub = public_key(alg, name, kver)
        sx.check(pub.verify(sig, item) is True, 'verifies')
        sx.check(key.verify(sig, item) is True, 'verifies itself')
        again = type(sig).from_packet(
            list(parse_binary_packet_data(bytes(packet)))[0], item)
        sx.check(pub.verify(again, item) is True, 'verifies when read')
    sx.reach('signed')


def flip(octets, at, mask):
    return octets[:at] + be(bytearray(octets)[at] ^ mask, 1) + octets[at + 1:]


def signed(sx, alg, name, version, hash_, kind):
    key = secret_key(alg, name)
    item, octets, t = item_of(sx, kind, version)
    return key, item, key.sign(item, version, t, hash_), octets


def h_altered(sx, alg, name, version, hash_, kind, what):
    """A signature of which anything was altered is refused."""
    del KEEP[:]
    sx.clock(1400000123)
    key, item, sig, octets = signed(sx, alg, name, version, hash_, kind)
    pub = public_key(alg, name)
    f = split_packet(sig.to_packet())
    same = False
    if what == 'unhashed':
        f['unhashed'] = subpacket(101, sx.bytes('more', 2))
        same = True
    elif what == 'nothing':
        same = True
    elif what == 'area':
        f['hashed'] += subpacket(101, sx.bytes('more', 2))
    elif what == 'moved':
        # the creation time goes to the area that is not hashed
        a = f['hashed'].index(be(5, 1) + be(2, 1))
        f['unhashed'] = f['hashed'][a:a + 6]
        f['hashed'] = f['hashed'][:a] + f['hashed'][a + 6:]
    elif what == 'mpi':
        f['mpis'] = flip(f['mpis'], len(f['mpis']) - 1, sx.int('mask', 1, 255))
    elif what == 'hashed':
        at = f['hashed'].index(be(5, 1) + be(2, 1)) + 2
        f['hashed'] = flip(f['hashed'], at + sx.choose('at', [1, 2, 3]),
                           sx.int('mask', 1, 255))
    elif what == 'time':
        f['time'] = flip(f['time'], sx.choose('at', [1, 2, 3]),
                         sx.int('mask', 1, 255))
    elif what == 'type':
        old = bytearray(f['type'])[0]
        new = sx.choose('type', [0, 1, 2, 0x10, 0x13, 0x18, 0x1f, 0x20, 0x28,
                                 0x30, 0x40, 0x50])
        sx.assume(new != old)
        if (old, new) in ((0, 1), (1, 0)):
            # the document is hashed differently, but the type is, too
            pass
        f['type'] = be(new, 1)
    elif what == 'hash':
        new = sx.choose('hash', [1, 2, 3, 8, 9, 10, 11, 5, 0])
        sx.assume(new != hash_)
        if alg == 17 and new in HASHES:
            # a DSA key of 160 bits sees no more than that of a digest
            full = octets + hashed_trailer(
                version, bytearray(f['type'])[0], be(1400000123, 4), alg, hash_, f['hashed'])
            fake = octets + hashed_trailer(
                version, bytearray(f['type'])[0], be(1400000123, 4), alg, new, f['hashed'])
            sx.assume(real.number(sx.digest(HASHES[hash_], full)[:20]) !=
                      real.number(sx.digest(HASHES[new], fake)[:20]))
        f['hash'] = be(new, 1)
    elif what == 'hash2':
        f['hash2'] = flip(f['hash2'], sx.choose('at', [0, 1]),
                          sx.int('mask', 1, 255))
    elif what == 'pk':
        new = sx.choose('pk', [1, 2, 3, 16, 17, 20, 21])
        sx.assume(new != alg)
        f['pk'] = be(new, 1)
        if new in (16, 17, 20) and alg == 1:
            f['mpis'] = f['mpis'] * 2
    elif what == 'issuer':
        new = sx.bytes('issuer', 8)
        old = key_id_of(sx, alg, name, 4)
        sx.assume(sx.no(sx.eq(new, old)))
        if version == 3:
            f['issuer'] = new
        else:
            i = f['hashed'].index(be(9, 1) + be(16, 1))
            f['hashed'] = f['hashed'][:i + 2] + new + f['hashed'][i + 10:]
    elif what == 'version':
        # the same statements in the other version
        kid = key_id_of(sx, alg, name, 4)
        if version == 4:
            f = dict(f, version=3, time=be(1400000123, 4), issuer=kid)
        else:
            f = dict(f, version=4, hashed=subpacket(2, be(1400000123, 4)) +
                     subpacket(16, kid), unhashed=b'')
    packet = join_packet(f)
    try:
        other = type(sig).from_packet(packet, item)
        good = pub.verify(other, item) is True
    except Exception:
        good = False
    sx.check(good == same, 'accepted' if good else 'refused')
    sx.reach('done')


def h_other(sx, alg, name, version, hash_, kind, what):
    """A signature is not one of anything else, nor by anybody else."""
    del KEEP[:]
    sx.clock(1400000123)
    key, item, sig, octets = signed(sx, alg, name, version, hash_, kind)
    pub = public_key(alg, name)
    sx.check(pub.verify(sig, item) is True, 'refused at first')
    good = False
    if what == 'data':
        other, octets, t = item_of(sx, kind, version, 'other ')
        if kind.split(':')[0] in ('binary', 'text'):
            good = sx.eq(other.data, item.data)
        else:
            good = sx.eq(bytes(other.to_packet().content),
                         bytes(item.to_packet().content))
    elif what == 'longer':
        other = msg.BinaryMessage(item.data + sx.bytes('end', 1), 'name', WHEN)
    elif what == 'shorter':
        other = msg.BinaryMessage(item.data[:3], 'name', WHEN)
    elif what == 'primary':
        # the same under another primary key
        primary = tk.TransferablePublicKey.from_packets(
            [real.packet(6, real.public_body(1, 'rsa'))])
        KEEP.append(primary)
        other = type(item).from_packet(primary, item.to_packet())
    elif what == 'time of key':
        primary = tk.TransferablePublicKey.from_packets(
            [real.packet(6, real.public_body(17, 'dsa_b',
                                             sx.int('made', 0, 1399999999)))])
        KEEP.append(primary)
        other = primary if kind == 'key' else \
            type(item).from_packet(primary, item.to_packet())
    elif what == 'name':
        # what is not signed
        other = msg.BinaryMessage(item.data, sx.text('name', 2),
                                  datetime.datetime(2016, 1, 1))
        good = True
    else:
        other = item
        pub = public_key(alg, what)
        if version == 4:
            f = split_packet(sig.to_packet())
            i = f['hashed'].index(be(9, 1) + be(16, 1))
            kid = key_id_of(sx, alg, what, 4)
            f['unhashed'] = subpacket(16, kid)
            sig = type(sig).from_packet(join_packet(f), item)
    try:
        got = pub.verify(sig, other) is True
    except Exception:
        got = False
    if sx.either(good):
        sx.check(got, 'refused')
        sx.reach('same')
    else:
        sx.check(not got, 'accepted')
        sx.reach('other')


def h_fresh(sx, alg, name, version, hash_, what):
    """Every signature has a secret number of its own."""
    sx.clock(1400000123)
    Draws.given = []
    Draws.start = sx.int('start', 1, 60000)
    sx.patch(strong, 'StrongRandom', Draws)
    key = secret_key(alg, name)
    a = msg.BinaryMessage(sx.bytes('data', 2), 'name', WHEN)
    b = a
    other = key
    if what == 'data':
        b = msg.BinaryMessage(sx.bytes('more', 2), 'name', WHEN)
    elif what == 'key':
        other = secret_key(alg, name)
    first = key.sign(a, version, 0, hash_)
    second = other.sign(b, version, 0, hash_)
    sx.check(len(Draws.given) >= 2, 'one for each')
    k = real.KEYS[name]
    for low, high in Draws.given:
        sx.check(low >= 1 and high <= k['q'] - 1, 'range')
        sx.check(high - low >= k['q'] - 3, 'the whole range')
    sx.check(first.signature_values[0] != second.signature_values[0],
             'different')
    sx.reach('done')


def h_reuse(sx, alg, name, version, hash_):
    """Subpackets given for one signature serve for the next one, too."""
    sx.clock(sx.int('now', 1400000000, 1400065535))
    key = secret_key(alg, name)
    mine = [sp.KeyFlagsSubpacket(False, True, False, False, False, False,
                                 False, False)]
    a = msg.BinaryMessage(sx.bytes('data', 2), 'name', WHEN)
    first = key.sign(a, version, 0, hash_, mine)
    sx.check(len(mine) == 1, 'list of the caller')
    sx.clock(sx.int('later', 1500000000, 1500065535))
    second = key.sign(a, version, 0, hash_, mine)
    f = split_packet(second.to_packet())
    sx.check(sorted(t for t, _ in areas(f['hashed'])) == [2, 16, 27],
             'subpackets')
    pub = public_key(alg, name)
    sx.check(pub.verify(first, a) is True, 'first')
    sx.check(pub.verify(second, a) is True, 'second')
    f = split_packet(first.to_packet())
    sx.check(sorted(t for t, _ in areas(f['hashed'])) == [2, 16, 27],
             'subpackets of the first')
    sx.reach('done')


def h_message(sx, alg, name, version, one_pass, hash_):
    """Signing a message signs its data."""
    sx.clock(1400000123)
    key = secret_key(alg, name)
    data = sx.bytes('data', 3)
    m = msg.BinaryMessage(data, 'name', WHEN)
    if version is None:
        version = 4
        w = m.sign(key, hash_algorithm=hash_, one_pass=one_pass)
    else:
        w = m.sign(key, version, 0, hash_, one_pass)
    out = w.to_packets()
    back = msg.open_pgp_message_from_packets(
        list(parse_binary_packet_data(b''.join(bytes(p) for p in out))))
    sx.check(len(back.signatures) == 1, 'one signature')
    sx.check(back.signatures[0].version == version, 'version')
    sx.check(back.signatures[0].signature_type == 0, 'type')
    sx.check(back.signatures[0].hash_algorithm == hash_, 'hash')
    pub = public_key(alg, name)
    inner = back.get_message()
    sx.check(pub.verify(back.signatures[0], inner) is True, 'verifies')
    other = msg.BinaryMessage(sx.bytes('other', 3), 'name', WHEN)
    sx.assume(sx.no(sx.eq(other.data, data)))
    sx.check(refuses(sx, pub.verify, back.signatures[0], other), 'other data')
    sx.reach('done')


def h_unsupported(sx, alg):
    """Keys that cannot sign do not."""
    name = {2: 'rsa', 16: 'elg'}[alg]
    key = secret_key(alg, name)
    m = msg.BinaryMessage(b'abc', 'name', WHEN)
    sx.check(refuses(sx, key.sign, m, 4, 0, sx.choose('hash', [1, 2, 8])),
             'signed')


# --- cases ---
def cases(tier):
    thorough = tier != 'quick'
    out = []
    keys = [(1, 'rsa', 4, (1, 2, 3, 8, 11)), (3, 'rsa_b', 4, (2, 8)),
            (1, 'rsa_l', 4, (8, 9, 10)), (17, 'dsa', 4, (1, 2, 3, 8, 10, 11)),
            (17, 'dsa_b', 4, (8, 9)), (1, 'rsa', 3, (1, 2))]
    kinds = ('binary', 'text', 'bytes', 'str', 'key', 'sub', 'uid', 'attr')
    i = 0
    for alg, name, kver, hashes in keys:
        for version in (3, 4):
            for hash_ in hashes:
                for kind in kinds:
                    i += 1
                    if not thorough and kind != 'binary' and i % 3:
                        continue
                    out.append(('h_sign', dict(
                        alg=alg, name=name, kver=kver, version=version,
                        hash_=hash_, kind=kind, type_=None,
                        extra='list' if version == 4 and i % 2 else '')))
    for alg, name, hash_ in [(1, 'rsa', 2), (17, 'dsa', 8)]:
        for kind, types in [('binary', (2, 0x40)), ('key', (0x20,)),
                            ('sub', (0x28, 0x19)),
                            ('uid', (0x10, 0x11, 0x12, 0x30)),
                            ('attr', (0x13, 0x30))]:
            for type_ in types:
                for version in (3, 4):
                    out.append(('h_sign', dict(
                        alg=alg, name=name, kver=4, version=version,
                        hash_=hash_, kind=kind, type_=type_, extra='')))
    for alg, name, other, hash_ in [
            (1, 'rsa', 'rsa_b', 2), (1, 'rsa', 'rsa_b', 8),
            (17, 'dsa', 'dsa_b', 2), (1, 'rsa_l', 'rsa', 10)]:
        for version in (3, 4):
            for kind in ('binary', 'uid', 'sub') if not thorough else \
                    ('binary', 'text', 'key', 'sub', 'uid', 'attr'):
                whats = ['nothing', 'mpi', 'type', 'hash', 'hash2', 'pk',
                         'issuer', 'version']
                whats += ['unhashed', 'area', 'moved', 'hashed'] \
                    if version == 4 else ['time']
                for what in whats:
                    out.append(('h_altered', dict(
                        alg=alg, name=name, version=version, hash_=hash_,
                        kind=kind, what=what)))
            for kind in ('binary', 'text', 'uid', 'attr'):
                out.append(('h_other', dict(
                    alg=alg, name=name, version=version, hash_=hash_,
                    kind=kind, what='data')))
            for kind, what in [
                    ('binary', 'longer'), ('binary', 'shorter'),
                    ('sub', 'primary'), ('uid', 'primary'),
                    ('attr', 'primary'), ('key', 'time of key'),
                    ('sub', 'time of key'), ('uid', 'time of key'),
                    ('binary', 'name'), ('binary', other), ('uid', other),
                    ('key', other)]:
                out.append(('h_other', dict(
                    alg=alg, name=name, version=version, hash_=hash_,
                    kind=kind, what=what)))
    i = 0
    for kind in ('binary:300', 'binary:70000', 'text:300', 'text:9000',
                 'uid:256', 'uid:9000', 'attr:300', 'attr:70000',
                 'bytes:5000', 'str:5000'):
        for version in (3, 4):
            i += 1
            alg, name = [(1, 'rsa'), (17, 'dsa')][i // 2 % 2]
            out.append(('h_sign', dict(
                alg=alg, name=name, kver=4, version=version, hash_=2,
                kind=kind, type_=None, extra='')))
            if kind[:3] not in ('byt', 'str'):
                out.append(('h_other', dict(
                    alg=alg, name=name, version=version, hash_=2, kind=kind,
                    what='data')))
    for alg, name in [(17, 'dsa'), (17, 'dsa_b')]:
        for version in (3, 4):
            for what in ('same', 'data', 'key'):
                out.append(('h_fresh', dict(alg=alg, name=name,
                                            version=version, hash_=2,
                                            what=what)))
    for alg, name, hash_ in [(1, 'rsa', 2), (17, 'dsa', 2)]:
        out.append(('h_reuse', dict(alg=alg, name=name, version=4,
                                    hash_=hash_)))
        for version in (3, 4, None):
            for one_pass in (True, False):
                out.append(('h_message', dict(
                    alg=alg, name=name, version=version, one_pass=one_pass,
                    hash_=hash_)))
    for alg in (2, 16):
        out.append(('h_unsupported', dict(alg=alg)))
    return out
