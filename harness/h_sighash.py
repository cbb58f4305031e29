"""The octets that are hashed for a signature (RFC 4880 section 5.2.4)."""
from pgp import message
from pgp import transferrable_keys as tk
from pgp import utils
from pgp.packets import packets as pk
from pgp.signature import BaseSignature
import datetime
from hlib.util import be, long_octets, long_text, new_frame, new_length
from hlib.keys import (public_body, secret_body, subpacket, created, issuer,
                       sig4_body, sig3_body, hashed_key, hashed_user,
                       hashed_trailer)

HASHES = {1: 'md5', 2: 'sha1', 3: 'ripemd160', 8: 'sha256', 9: 'sha384',
          10: 'sha512', 11: 'sha224'}
DATES = [b'\x00\x00\x00\x01', b'\x38\x6d\x43\x80', b'\xfe\x00\x00\x07']
CERTS = [0x10, 0x11, 0x12, 0x13, 0x30]


def packet(tag, body):
    return pk.packet_from_packet_data(bytearray(new_frame(tag, body)), 0)[1]


def number(octets):
    v = 0
    for b in bytearray(octets):
        v = v * 256 + b
    return v


def key_of(sx, name, version, alg, form, time=None, bits=0):
    """(body of the public part, packet)"""
    more = dict(bits=(bits, 17)) if bits else {}
    if time is not None:
        # counting days forth and back is decided with the packets
        more['days'] = sx.choose(name + '.days1', [b'\x00', b'\x0e']) + \
            sx.bytes(name + '.days0', 1)
    body = public_body(sx, name, version, alg, time=time, **more)
    if form == 'public':
        return body, packet(6, body)
    if form == 'pubsub':
        return body, packet(14, body)
    usage = 0
    if form.endswith('*'):
        usage = 254
    return body, packet(5 if form.startswith('secret') else 7,
                        secret_body(sx, name, body, usage, 3))


def attribute_body(sx, n):
    data = sx.bytes('attr', n) if n < 300 else long_octets(sx, 'attr', n)
    head = b'\x10\x00\x01\x01' + bytes(bytearray(12))
    return new_length(len(head) + n + 1) + b'\x01' + head + data


def user_id(sx, n):
    if n > 99:
        uid = long_text(sx, 'uid', n)
    else:
        uid = sx.bytes('uid', n)
    if 99 >= n > 1:
        for b in bytearray(uid):
            sx.assume(b < 128)
    return uid


def what(sx, kind, version):
    """(packet to hash, its octets, public key packet, types)"""
    key = None
    if kind.startswith('key'):
        form, alg, kver, bits = (kind[4:] + '/0').split('/')[:4]
        body, key = key_of(sx, 'key', int(kver), int(alg), form,
                           bits=int(bits))
        return key, hashed_key(body), key, [0x1f, 0x20]
    if kind.startswith('sub'):
        form, alg, bits = (kind[4:] + '/0').split('/')[:3]
        body, key = key_of(sx, 'key', 4, 1,
                           'public' if form == 'pubsub' else 'secret',
                           bits=int(bits))
        sbody, sub = key_of(sx, 'sub', 4, int(alg), form, bits=int(bits))
        return sub, hashed_key(body) + hashed_key(sbody), key, \
            [0x18, 0x19, 0x28]
    if kind.startswith('uid'):
        form, n = kind[4:].split('/')
        body, key = key_of(sx, 'key', 4, 1, form)
        uid = user_id(sx, int(n))
        return packet(13, uid), hashed_key(body) + \
            hashed_user(13, uid, version), key, CERTS
    if kind.startswith('attr'):
        body, key = key_of(sx, 'key', 4, 1, 'public')
        a = attribute_body(sx, int(kind[5:]))
        return packet(17, a), hashed_key(body) + hashed_user(17, a, version),\
            key, CERTS
    if kind == 'none':
        return packet(13, b'x'), b'', None, [0x02]
    if kind.startswith('sig'):
        n, m = [int(x) for x in kind[5:].split('/')]
        mpis = b'\x00\x09\x01' + sx.bytes('m', 1)
        if kind.startswith('sig3'):
            raw = sig3_body(0x10, sx.bytes('st', 4), sx.bytes('sk', 8), 1, 2,
                            sx.bytes('sh', 2), mpis)
            octets = raw
        else:
            hashed = subpacket(100, sx.bytes('shd', n) if n < 100 else
                               long_octets(sx, 'shd', n))
            un = subpacket(101, sx.bytes('sun', m) if m < 100 else
                           long_octets(sx, 'sun', m)) if m else b''
            h2 = sx.bytes('sh', 2)
            raw = sig4_body(0x10, 1, 2, hashed, un, h2, mpis)
            octets = sig4_body(0x10, 1, 2, hashed, b'', h2, mpis)
        return packet(2, raw), b'\x88' + be(len(octets), 4) + octets, None, \
            [0x50]


def one_of(sx, name, options, k):
    if k is None:
        return sx.choose(name, options)
    return options[k % len(options)]


def h_packet(sx, kind, version, n, k):
    target, octets, key, types = what(sx, kind, version)
    type_ = one_of(sx, 'type', types, k)
    alg = one_of(sx, 'hash', sorted(HASHES), k)
    time4 = sx.bytes('time', 4)
    pkalg = sx.int('pk', 0, 255)
    hashed = None
    if version == 4:
        hashed = sx.bytes('hashed', min(n, 300))
        if n > 300:
            hashed += bytes(bytearray(n - 300))
    got = utils.hash_packet_for_signature(
        target, type_, version, alg, number(time4), pkalg, key, hashed)
    want = octets + hashed_trailer(version, type_, time4, pkalg, alg, hashed)
    sx.check(sx.eq(bytes(got.digest()), sx.digest(HASHES[alg], want)),
             'octets hashed')
    sx.reach('end')


def h_object(sx, kind, version, form, k):
    """The same for the objects of keys."""
    kver = 4
    size = bits = 0
    if ':' in kind:
        kind, size = kind.split(':')
        size = int(size)
        bits = 3000 if kind in ('key', 'sub') else 0
    if '/' in kind:
        kind, kver = kind.split('/')
        kver = int(kver)
    sec = form != 'public'
    body, kp = key_of(sx, 'key', kver, 1, form,
                      number(DATES[k % 3]) if kver < 4 else None,
                      bits=bits)
    primary = (tk.TransferableSecretKey if sec else
               tk.TransferablePublicKey).from_packet(kp)
    octets = hashed_key(body)
    obj = primary
    types = [0x1f, 0x20]
    if kind == 'sub':
        sbody, sp = key_of(sx, 'sub', 4, 16,
                           'secsub' + form[6:] if sec else 'pubsub',
                          bits=bits)
        obj = (tk.SecretSubkey if sec else
               tk.PublicSubkey).from_packet(primary, sp)
        octets += hashed_key(sbody)
        types = [0x18, 0x19, 0x28]
    elif kind == 'uid':
        uid = user_id(sx, size or 3)
        obj = tk.UserID.from_packet(primary, packet(13, uid))
        octets += hashed_user(13, uid, version)
        types = CERTS
    elif kind == 'attr':
        a = attribute_body(sx, size or 3)
        obj = tk.UserAttribute.from_packet(primary, packet(17, a))
        octets += hashed_user(17, a, version)
        types = CERTS
    type_ = one_of(sx, 'type', types, k)
    check_object(sx, obj, tk.KeySignature, octets, version, type_,
                 (1, 17)[k % 2], k)
    sx.check(primary is not None, 'kept')


def check_object(sx, obj, cls, octets, version, type_, pkalg, k):
    halg = one_of(sx, 'hash', [1, 2, 8, 10], k)
    time4 = sx.bytes('time', 4)
    mpis = b'\x00\x09\x01\x00' * (2 if pkalg == 17 else 1)
    if version < 4:
        raw = sig3_body(type_, time4, sx.bytes('issuer', 8), pkalg, halg,
                        b'ab', mpis, version)
        hashed = b''
    else:
        hashed = created(time4) + subpacket(100, sx.bytes('hx', 3))
        un = issuer(sx.bytes('issuer', 8)) + subpacket(101, sx.bytes('ux', 2))
        raw = sig4_body(type_, pkalg, halg, hashed, un, b'ab', mpis)
    sig = cls.from_packet(packet(2, raw), obj)
    got = bytes(obj.to_signable_data(type_, version)) + \
        bytes(sig.to_signable_data(type_, version))
    sx.check(sx.eq(got, octets + hashed_trailer(version, type_, time4, pkalg,
                                                halg, hashed)),
             'octets hashed')
    # and it is written as the signature that was read
    sx.check(sx.eq(bytes(sig.to_packet()), new_frame(2, raw)),
             'written as it was')
    sx.reach('end')


def canonical(raw):
    """Text with all line endings as CR, LF."""
    out = bytearray()
    raw = bytearray(raw)
    i = 0
    while i < len(raw):
        c = raw[i]
        if c == 13:
            if i + 1 < len(raw) and raw[i + 1] == 10:
                i += 1
            out += b'\r\n'
        elif c == 10:
            out += b'\r\n'
        else:
            out.append(c)
        i += 1
    return bytes(out)


def h_document(sx, kind, n, version, type_, hi, k):
    """Documents: as they are, or as text with CR, LF at its line ends."""
    when = datetime.datetime(2015, 1, 2, 3, 4, 5)
    if kind == 'binary':
        data = raw = sx.bytes('data', n) if n < 100 else \
            long_text(sx, 'data', n)
        doc = message.BinaryMessage(data, 'name', when)
    elif kind == 'text':
        if n < 100:
            data = sx.text('data', n, 0 if hi < 128 else 128, hi)
        else:
            data = long_text(sx, 'data', n).decode('ascii')
        raw = data.encode('utf8')
        doc = message.TextMessage(data, 'name', when)
    else:
        # as read from a packet
        raw = sx.bytes('data', n) if n < 100 else long_text(sx, 'data', n)
        if kind[0] == 'u' and n < 100:
            for b in bytearray(raw):
                sx.assume(b < 128)
        pkt = packet(11, kind[0].encode('ascii') + b'\x00' +
                     sx.bytes('when', 4) + raw)
        doc = message.LiteralMessage.from_packet(pkt)
        sx.check(sx.eq(bytes(doc.to_packet().content), bytes(pkt.content)),
                 'written as it was')
    want = canonical(raw) if type_ == 1 else raw
    check_object(sx, doc, BaseSignature, want, version, type_, 1, k)


# --- cases ---


def cases(tier):
    big = tier == 'thorough'
    out = []
    k = 0
    for version in (3, 4):
        kinds = ['none', 'sig3-0/0', 'sig4-0/0', 'sig4-2/3', 'uid-public/0',
                 'uid-public/1', 'uid-public/3', 'uid-secret/3',
                 'uid-secret*/2', 'attr-0', 'attr-5', 'attr-200']
        for form in ('public', 'secret', 'secret*'):
            for alg in ((1, 2, 3, 16, 17, 20) if form == 'public' else
                        (1, 17)):
                kinds.append('key-%s/%d/4' % (form, alg))
        kinds += ['key-public/1/3', 'key-public/1/2', 'key-secret/1/3']
        for form in ('pubsub', 'secsub', 'secsub*'):
            for alg in (1, 16, 17):
                kinds.append('sub-%s/%d' % (form, alg))
        kinds += ['uid-public/300', 'uid-secret/9000', 'attr-9000',
                  'attr-70000', 'sig4-300/300', 'sig4-9000/3',
                  'sig4-0/9000', 'key-public/1/4/2040',
                  'key-secret/17/4/2200', 'sub-pubsub/1/2100',
                  'sub-secsub*/16/2048']
        for kind in kinds:
            sizes = (0, 7) if version == 4 else (0,)
            if big and version == 4:
                sizes += (300, 65535)
            for n in sizes:
                k += 1
                out.append(('h_packet', dict(
                    kind=kind, version=version, n=n,
                    k=None if big or kind in (
                        'none', 'uid-public/0', 'key-public/1/4',
                        'sub-pubsub/16') else k)))
    for n in (255, 256, 65529, 65530, 65535):
        out.append(('h_packet', dict(kind='none', version=4, n=n, k=n)))
    for version in (2, 3, 4):
        for form in ('public', 'secret', 'secret*'):
            for kind in ('key', 'key/3', 'sub', 'uid', 'attr', 'uid/3',
                         'key:1', 'sub:1', 'uid:200', 'uid:9000', 'attr:260',
                         'attr:70000'):
                if ':' in kind and k % 2 and not big:
                    k += 1
                    continue
                for j in range(5 if big else 1):
                    k += 1
                    out.append(('h_object', dict(kind=kind, version=version,
                                                 form=form, k=k)))
    for version in (3, 4):
        for type_ in (0, 1):
            for kind in ('binary', 'text', 'b', 'u', 't', 'l'):
                for n in ((0, 1, 3) if not big else (0, 3, 4, 5)):
                    if kind in 'btl' and n == 1:
                        continue
                    k += 1
                    out.append(('h_document', dict(
                        kind=kind, n=n, version=version, type_=type_,
                        hi=127, k=k)))
            k += 1
            out.append(('h_document', dict(kind='text', n=2, version=version,
                                           type_=type_, hi=0x7ff, k=k)))
            for kind in ('binary', 'text', 'b', 'u', 't', 'l'):
                for n in (5000,) + ((70000,) if big or
                                    kind in ('text', 'u') else ()):
                    out.append(('h_document', dict(
                        kind=kind, n=n, version=version, type_=type_,
                        hi=127, k=k)))
    return out
