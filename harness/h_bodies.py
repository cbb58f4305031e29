"""Every kind of packet: what is read has the fields the octets say, and is
written as the same octets."""
from pgp import utils
from pgp.packets import constants
from pgp.packets import packets as pk
from hlib.util import (Stream, be, new_frame, old_frame, new_length, mpi,
                       exact_mpi)

NEW = constants.NEW_PACKET_HEADER_TYPE
OLD = constants.OLD_PACKET_HEADER_TYPE


def hexid(raw):
    return utils.bytearray_to_hex(bytearray(raw))


def read_write(sx, tag, body, fmt='new'):
    """Read the packet from octets and from a stream; check both are written
    as they were. Returns the packet."""
    frame = (new_frame if fmt == 'new' else old_frame)(tag, body)
    off, p = pk.packet_from_packet_data(bytearray(frame + b'\xcd\x00'), 0)
    sx.check(off == len(frame), 'length of the packet')
    sx.check(p.type == tag, 'tag')
    sx.check(p.header_format == (NEW if fmt == 'new' else OLD), 'format')
    sx.check(sx.eq(bytes(p.content), body), 'same body')
    sx.check(sx.eq(bytes(p), frame), 'same octets')
    q = pk.packet_from_packet_stream(Stream(frame + b'\xcd\x00'))
    sx.check(q.type == tag, 'stream: tag')
    sx.check(sx.eq(bytes(q), frame), 'stream: same octets')
    sx.check(p == q, 'packets of the same octets are equal')
    sx.reach('end')
    return p


def octet(raw, i=0):
    return bytearray(raw)[i]


def h_pkesk(sx, n, wild, fmt):
    key = bytes(bytearray(8)) if wild else sx.bytes('key', 8)
    if not wild:
        sx.assume(sx.either(*[b != 0 for b in bytearray(key)]))
    ver = sx.bytes('version', 1)
    alg = sx.bytes('alg', 1)
    esk = sx.bytes('esk', n)
    p = read_write(sx, 1, ver + key + alg + esk, fmt)
    sx.check(sx.eq(p.version, octet(ver)), 'version')
    if wild:
        sx.check(p.key_id is None, 'wild card')
    else:
        sx.check(sx.eq(p.key_id, hexid(key)), 'key ID')
    sx.check(sx.eq(p.public_key_algorithm, octet(alg)), 'algorithm')
    sx.check(sx.eq(bytes(p.encrypted_session_key), esk), 'session key')
    q = pk.PublicKeyEncryptedSessionKeyPacket(
        p.header_format, p.version, p.key_id, p.public_key_algorithm,
        p.encrypted_session_key)
    sx.check(p == q, 'equal to one made from its fields')
    sx.check(sx.eq(bytes(q), bytes(p)), 'made from fields')


S2K = {0: 0, 1: 8, 3: 9}


def h_skesk(sx, mode, n, fmt):
    alg = sx.bytes('alg', 1)
    h = sx.bytes('hash', 1)
    spec = sx.bytes('s2k', S2K[mode])
    esk = sx.bytes('esk', n)
    p = read_write(sx, 3, b'\x04' + alg + be(mode, 1) + h + spec + esk, fmt)
    sx.check(p.version == 4, 'version')
    sx.check(sx.eq(p.symmetric_algorithm, octet(alg)), 'algorithm')
    s = p.s2k_specification
    sx.check(sx.eq(s.hash_algorithm, octet(h)), 'hash')
    sx.check(sx.eq(s.symmetric_algorithm, octet(alg)), 's2k algorithm')
    sx.check(sx.eq(bytes(s.salt), spec[:8]), 'salt')
    if mode == 3:
        c = octet(spec, 8)
        sx.check(sx.eq(s.count, (16 + (c & 15)) << ((c >> 4) + 6)), 'count')
    sx.check(sx.eq(bytes(p.encrypted_session_key or b''), esk), 'key')
    q = pk.SymmetricKeyEncryptedSessionKeyPacket(
        p.header_format, 4, p.symmetric_algorithm, s,
        p.encrypted_session_key)
    sx.check(p == q, 'equal to one made from its fields')
    sx.check(sx.eq(bytes(q), bytes(p)), 'made from fields')


def h_onepass(sx, fmt):
    b = sx.bytes('b', 13)
    p = read_write(sx, 4, b, fmt)
    got = [p.version, p.signature_type, p.hash_algorithm,
           p.public_key_algorithm]
    for i in range(4):
        sx.check(sx.eq(got[i], octet(b, i)), 'field %d' % i)
    sx.check(sx.eq(p.key_id, hexid(b[4:12])), 'key ID')
    sx.check(sx.eq(int(p.nested), octet(b, 12)), 'nested')
    q = pk.OnePassSignaturePacket(p.header_format, p.version,
                                  p.signature_type, p.hash_algorithm,
                                  p.public_key_algorithm, p.key_id, p.nested)
    sx.check(p == q, 'equal to one made from its fields')
    sx.check(sx.eq(bytes(q), bytes(p)), 'made from fields')


MPIS = {1: ('modulus', 'exponent'), 2: ('modulus', 'exponent'),
        3: ('modulus', 'exponent'),
        16: ('prime', 'group_generator', 'key_value'),
        20: ('prime', 'group_generator', 'key_value'),
        17: ('prime', 'group_order', 'group_generator', 'key_value')}


def public_part(sx, version, alg, bits):
    t = sx.bytes('time', 4)
    body = be(version, 1) + t
    days = b''
    if version < 4:
        days = sx.bytes('days', 2)
    body += days + be(alg, 1)
    vals = {}
    for i, name in enumerate(MPIS[alg]):
        m, v = exact_mpi(sx, name, bits[i % len(bits)])
        body += m
        vals[name] = v
    return body, t, days, vals


def check_public(sx, p, version, alg, t, days, vals):
    n = 0
    for b in bytearray(t):
        n = n * 256 + b
    sx.check(p.version == version, 'version')
    sx.check(sx.eq(p.creation_time, n), 'creation time')
    sx.check(p.public_key_algorithm == alg, 'algorithm')
    if version < 4:
        sx.check(sx.eq(p.expiration_days,
                       octet(days) * 256 + octet(days, 1)), 'validity')
    else:
        sx.check(not p.expiration_days, 'no validity')
    for k in ('modulus', 'exponent', 'prime', 'group_generator',
              'group_order', 'key_value'):
        if k in vals:
            sx.check(sx.eq(getattr(p, k), vals[k]), k)
        else:
            sx.check(getattr(p, k) is None, 'no ' + k)


def h_public_key(sx, tag, version, alg, bits, fmt):
    body, t, days, vals = public_part(sx, version, alg, bits)
    p = read_write(sx, tag, body, fmt)
    check_public(sx, p, version, alg, t, days, vals)
    cls = pk.PublicKeyPacket if tag == 6 else pk.PublicSubkeyPacket
    q = cls(p.header_format, p.version, p.creation_time,
            p.public_key_algorithm, p.expiration_days, **vals)
    sx.check(p == q, 'equal to one made from its fields')
    sx.check(sx.eq(bytes(q), bytes(p)), 'made from fields')
    h = p.get_content_for_signature_hash(4)
    sx.check(sx.eq(bytes(h), b'\x99' + be(len(body), 2) + body),
             'hashed as a key')


def h_secret_key(sx, tag, version, alg, usage, mode, n, fmt):
    body, t, days, vals = public_part(sx, version, alg, [9, 17])
    pub = body
    body += be(usage, 1)
    cipher = usage
    s2k = b''
    if usage in (254, 255):
        cipher = sx.choose('cipher', [1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13])
        s2k = be(mode, 1) + sx.bytes('hash', 1)
        if mode == 101:
            s2k += b'GNU' + be(n, 1)
        else:
            s2k += sx.bytes('s2k', S2K[mode])
        body += be(cipher, 1) + s2k
    iv = b''
    if usage:
        iv = sx.bytes('iv', 8 if cipher < 7 else 16)
    enc = sx.bytes('enc', n)
    body += iv + enc
    p = read_write(sx, tag, body, fmt)
    check_public(sx, p, version, alg, t, days, vals)
    sx.check(sx.eq(bytes(p.public_content), pub), 'public part')
    sx.check(sx.eq(p.symmetric_algorithm, cipher), 'cipher')
    sx.check(sx.eq(bytes(p.iv), iv), 'iv')
    sx.check(sx.eq(bytes(p.encrypted_portion), enc), 'secret part')
    sx.check(bool(p.hash) == (usage == 254), 'hash')
    sx.check(bool(p.checksum) == (usage != 254), 'checksum')
    if s2k:
        sx.check(sx.eq(bytes(p.s2k_specification), s2k), 's2k')
    else:
        sx.check(p.s2k_specification is None, 'no s2k')


def h_gnu_dummy(sx, tag, usage, mode, fmt):
    """Secret keys that GnuPG keeps elsewhere."""
    body, t, days, vals = public_part(sx, 4, 1, [9, 17])
    cipher = sx.choose('cipher', [0, 3, 7, 9])
    s2k = be(101, 1) + sx.bytes('hash', 1) + b'GNU' + be(mode, 1)
    if mode == 2:
        s2k += b'\x04' + sx.bytes('serial', 4)
    body += be(usage, 1) + be(cipher, 1) + s2k
    p = read_write(sx, tag, body, fmt)
    check_public(sx, p, 4, 1, t, days, vals)
    sx.check(sx.eq(bytes(p.s2k_specification), s2k), 's2k')
    sx.check(len(p.encrypted_portion) == 0, 'no secret part')


def h_compressed(sx, n, fmt):
    b = sx.bytes('b', n)
    p = read_write(sx, 8, b, fmt)
    sx.check(sx.eq(p.compression_algorithm, octet(b)), 'algorithm')
    sx.check(sx.eq(bytes(p.compressed_data), b[1:]), 'data')
    q = pk.CompressedDataPacket(p.header_format, p.compression_algorithm,
                                p.compressed_data)
    sx.check(sx.eq(bytes(q), bytes(p)), 'made from fields')


def h_encrypted(sx, tag, n, fmt):
    b = sx.bytes('b', n)
    p = read_write(sx, tag, b, fmt)
    if tag == 18:
        sx.check(sx.eq(p.version, octet(b)), 'version')
        sx.check(sx.eq(bytes(p.encrypted_data), b[1:]), 'data')
    else:
        sx.check(sx.eq(bytes(p.data), b), 'data')


def h_plain(sx, tag, n, fmt):
    """Packets whose body is kept as it is."""
    b = sx.bytes('b', n)
    p = read_write(sx, tag, b, fmt)
    if tag == 19:
        sx.check(sx.eq(bytes(p.data), b), 'digest')


def h_mdc_size(sx, n):
    b = sx.bytes('b', n)
    try:
        pk.packet_from_packet_data(bytearray(new_frame(19, b)), 0)
    except Exception:
        sx.reach('refused')
        return
    sx.fail('an MDC packet has 20 octets')


def h_literal(sx, kind, name, n, fmt):
    t = sx.bytes('time', 4)
    fn = sx.text('name', name, 1, 126)
    raw = fn.encode('ascii')
    if kind in ('u',):
        data = sx.text('data', n, 0, 0x7f)
        wire = data.encode('utf8')
    elif kind == 'u2':
        data = sx.text('data', n, 0x80, 0x7ff)
        wire = data.encode('utf8')
    elif kind == 't':
        data = sx.text('data', n, 0, 0xff)
        wire = data.encode('latin-1')
    else:
        data = wire = sx.bytes('data', n)
    body = kind[0].encode('ascii') + be(len(raw), 1) + raw + t + wire
    p = read_write(sx, 11, body, fmt)
    v = 0
    for b in bytearray(t):
        v = v * 256 + b
    sx.check(p.data_format == kind[0].encode('ascii'), 'kind of data')
    sx.check(sx.eq(p.filename, fn), 'file name')
    sx.check(sx.eq(p.time, v), 'time')
    sx.check(sx.eq(p.data, data), 'data')
    q = pk.LiteralDataPacket(p.header_format, p.data_format, p.filename,
                             p.time, p.data)
    sx.check(p == q, 'equal to one made from its fields')
    sx.check(sx.eq(bytes(q), bytes(p)), 'made from fields')


def h_literal_name(sx, lo, hi, n):
    """A name of characters of more than one octet."""
    fn = sx.text('name', n, lo, hi)
    t = sx.int('t', 0, (1 << 32) - 1)
    data = sx.bytes('data', 3)
    p = pk.LiteralDataPacket(NEW, b'b', fn, t, data)
    raw = fn.encode('utf8')
    sx.check(sx.eq(bytes(p.content),
                   b'b' + be(len(raw), 1) + raw + be(t, 4) + data),
             'written')
    off, q = pk.packet_from_packet_data(bytearray(bytes(p)), 0)
    sx.check(sx.eq(q.filename, fn), 'name')
    sx.check(sx.eq(q.time, t), 'time')
    sx.check(sx.eq(bytes(q.data), data), 'data')
    sx.reach('end')


def h_trust(sx, n, fmt):
    b = sx.bytes('b', n)
    if n > 1:
        sx.assume(octet(b, 1) < 128)
    p = read_write(sx, 12, b, fmt)
    sx.check(sx.eq(p.trust_value, octet(b)), 'trust')
    if n > 1:
        sx.check(sx.eq(p.sig_cache, octet(b, 1)), 'signature cache')
        sx.check(p.checked == ((octet(b, 1) & 1) != 0), 'checked')
        sx.check(p.valid == ((octet(b, 1) & 2) != 0), 'valid')


def h_user_id(sx, n, fmt):
    """Any octets, also what isn't UTF-8."""
    b = sx.bytes('b', n)
    p = read_write(sx, 13, b, fmt)
    sx.check(sx.eq(p.user_id, b.decode('utf8', 'replace')), 'text')
    sx.check(sx.eq(bytes(p.get_content_for_signature_hash(4)),
                   b'\xb4' + be(n, 4) + b), 'hashed in version 4')
    sx.check(sx.eq(bytes(p.get_content_for_signature_hash(3)), b),
             'hashed in version 3')


def h_user_id_text(sx, n, lo, hi):
    t = sx.text('t', n, lo, hi)
    p = pk.UserIDPacket(NEW, t)
    raw = t.encode('utf8')
    sx.check(sx.eq(bytes(p), new_frame(13, raw)), 'written')
    off, q = pk.packet_from_packet_data(bytearray(bytes(p)), 0)
    sx.check(sx.eq(q.user_id, t), 'read')
    sx.check(p == q, 'equal')
    sx.reach('end')


def h_user_id_changed(sx, n):
    """A changed user ID isn't written as the one that was read."""
    b = sx.bytes('b', n)
    t = sx.text('t', n, 32, 126)
    off, p = pk.packet_from_packet_data(bytearray(new_frame(13, b)), 0)
    p.user_id = t
    sx.check(sx.eq(bytes(p.content), t.encode('ascii')), 'the new one')
    sx.reach('end')


def h_comment(sx, tag, n, fmt):
    t = sx.text('t', n, 0, 127)
    p = read_write(sx, tag, t.encode('ascii'), fmt)
    sx.check(sx.eq(p.comment, t), 'comment')


def h_attribute(sx, subs, fmt):
    """User attributes: images and subpackets of other types."""
    body = b''
    exp = []
    for i, (kind, n) in enumerate(subs):
        d = sx.bytes('s%d' % i, n)
        if kind == 'image':
            fmt_ = sx.bytes('f%d' % i, 1)
            content = b'\x10\x00\x01' + fmt_ + bytes(bytearray(12)) + d
            ty = 1
            exp.append((1, d, octet(fmt_)))
        else:
            ty = sx.int('ty%d' % i, 2, 255)
            content = d
            exp.append((ty, d, None))
        body += new_length(len(content) + 1) + be(ty, 1) + content
    p = read_write(sx, 17, body, fmt)
    sx.check(len(p.subpackets) == len(exp), 'number of subpackets')
    for sp, (ty, d, f) in zip(p.subpackets, exp):
        sx.check(sx.eq(sp.sub_type, ty), 'type')
        sx.check(sx.eq(bytes(sp.data), d), 'data')
        if f is not None:
            sx.check(sx.eq(sp.image_format, f), 'image format')
            sx.check(sp.header_version == 1, 'header version')
    sx.check(sx.eq(bytes(p.get_content_for_signature_hash(4)),
                   b'\xd1' + be(len(body), 4) + body), 'hashed in version 4')
    q = pk.UserAttributePacket(p.header_format, p.subpackets)
    sx.check(p == q, 'equal to one made from its fields')
    sx.check(sx.eq(bytes(q), bytes(p)), 'made from fields')


def h_control(sx, n, fmt):
    b = sx.bytes('b', 9 + n)
    p = read_write(sx, 63, b, fmt)
    sx.check(sx.eq(bytes(p.session_marker), b[:8]), 'marker')
    sx.check(sx.eq(p.control, octet(b, 8)), 'control')
    sx.check(sx.eq(bytes(p.content_data), b[9:]), 'content')


def h_any_tag(sx, n):
    """No tag at all makes the header misread."""
    tag = sx.int('tag', 20, 60)
    b = sx.bytes('b', n)
    off, p = pk.packet_from_packet_data(bytearray(new_frame(tag, b)), 0)
    sx.check(sx.eq(p.type, tag), 'tag')
    sx.check(sx.eq(bytes(p), new_frame(tag, b)), 'same octets')
    sx.reach('end')


def h_differ(sx, kind):
    """Packets with different fields aren't equal."""
    a = sx.bytes('a', 13)
    b = sx.bytes('b', 13)
    sx.assume(sx.no(sx.eq(a, b)))
    if kind == 'onepass':
        sx.assume(octet(a) == octet(b))
        tag = 4
        x, y = a, b
    elif kind == 'pkesk':
        tag, x, y = 1, a, b
    elif kind == 'literal':
        tag = 11
        x, y = b'b\x00' + a, b'b\x00' + b
    elif kind == 'skesk':
        tag = 3
        x, y = b'\x04\x09\x01' + a, b'\x04\x09\x01' + b
    elif kind == 'rsa':
        tag = 6
        sx.assume(octet(a, 4) >= 128)
        sx.assume(octet(b, 4) >= 128)
        sx.assume(octet(a, 9) >= 128)
        sx.assume(octet(b, 9) >= 128)
        x, y = [b'\x04' + d[:4] + b'\x01\x00\x28' + d[4:9] + b'\x00\x20' +
                d[9:] for d in (a, b)]
    elif kind == 'sig3':
        tag = 2
        sx.assume(octet(a, 10) >= 128)
        sx.assume(octet(b, 10) >= 128)
        x, y = [b'\x03\x05\x00' + d[:4] + b'\x01\x02\x03\x04\x05\x06' +
                d[4:8] + d[8:10] + b'\x00\x18' + d[10:] for d in (a, b)]
    elif kind == 'sig4':
        tag = 2
        sx.assume(octet(a, 10) >= 128)
        sx.assume(octet(b, 10) >= 128)
        x, y = [b'\x04' + d[:3] + b'\x00\x06\x05\x02' + d[3:7] +
                b'\x00\x00' + d[8:10] + b'\x00\x18' + d[10:] for d in (a, b)]
        sx.assume(octet(a, 7) == octet(b, 7))
    elif kind in ('trust',):
        tag = 12
        sx.assume(octet(a, 1) < 128)
        sx.assume(octet(b, 1) < 128)
        x, y = a[:2], b[:2]
        sx.assume(sx.no(sx.eq(x, y)))
    elif kind == 'userid':
        tag = 13
        x, y = a[:4], b[:4]
        for d in bytearray(x + y):
            sx.assume(d < 128)
        sx.assume(sx.no(sx.eq(x, y)))
    elif kind == 'rsa3':
        tag = 6
        sx.assume(octet(a, 6) >= 128)
        sx.assume(octet(b, 6) >= 128)
        sx.assume(octet(a, 10) >= 128)
        sx.assume(octet(b, 10) >= 128)
        x, y = [b'\x03' + d[:6] + b'\x01\x00\x20' + d[6:10] +
                b'\x00\x18' + d[10:] for d in (a, b)]
    elif kind in ('dsa', 'elgamal'):
        tag = 14
        n = 4 if kind == 'dsa' else 3
        for d in (a, b):
            for i in range(n):
                sx.assume(octet(d, 4 + 2 * i) >= 128)
        x, y = [b'\x04' + d[:4] + (b'\x11' if n == 4 else b'\x10') +
                b''.join(b'\x00\x10' + d[4 + 2 * i:6 + 2 * i]
                         for i in range(n)) for d in (a, b)]
        sx.assume(sx.no(sx.eq(x, y)))
    elif kind in ('secret', 'secret-hash', 'secret-plain'):
        # The same public part, another secret one.
        tag = 5
        head = b'\x04\x11\x22\x33\x44\x01\x00\x08\x80\x00\x02\x03'
        if kind == 'secret-plain':
            sx.assume(octet(a) >= 128)
            sx.assume(octet(b) >= 128)
            x, y = [head + b'\x00' + b'\x00\x08' + d[:1] +
                    b'\x00\x02\x03' * 3 +
                    be((octet(d) + 8 + 3 * 5) & 0xffff, 2)
                    for d in (a, b)]
            sx.assume(sx.no(sx.eq(x, y)))
        else:
            usage = b'\xff' if kind == 'secret' else b'\xfe'
            x, y = [head + usage + b'\x02\x00\x02' + d + b'\x77' * 30
                    for d in (a, b)]
    elif kind == 'secret-salt':
        tag = 7
        head = b'\x04\x11\x22\x33\x44\x01\x00\x08\x80\x00\x02\x03'
        x, y = [head + b'\xfe\x09\x03\x02' + d[:9] + b'\x66' * 16 + d[9:] +
                b'\x77' * 20 for d in (a, b)]
    elif kind == 'image':
        tag = 17
        x, y = [b'\x1e\x01\x10\x00\x01' + d[:1] + bytes(bytearray(12)) +
                d + b'\x03\x07\x00\x00' for d in (a, b)]
    elif kind == 'attribute':
        tag = 17
        sx.assume(octet(a) >= 2)
        sx.assume(octet(b) >= 2)
        x, y = [b'\x0e' + d + b'\x09' + b'\x03\x07\x00\x00' for d in (a, b)]
        x, y = x[:14] + x[15:], y[:14] + y[15:]
    elif kind == 'attributes':
        # More of them is another attribute, too.
        tag = 17
        x = b'\x03\x09' + a[:2]
        y = x + b'\x03\x09' + b[:2]
    elif kind == 'mdc':
        tag = 19
        x, y = a + a[:7], b + b[:7]
    elif kind in (16, 61):
        tag = kind
        x, y = a[:4], b[:4]
        for d in bytearray(x + y):
            sx.assume(d < 128)
        sx.assume(sx.no(sx.eq(x, y)))
    else:
        tag, x, y = kind, a, b
    p = pk.packet_from_packet_data(bytearray(new_frame(tag, x)), 0)[1]
    q = pk.packet_from_packet_data(bytearray(new_frame(tag, y)), 0)[1]
    sx.check(not (p == q), 'different packets differ')
    sx.check(p != q, 'different packets are unequal')
    r = pk.packet_from_packet_data(bytearray(new_frame(tag, x)), 0)[1]
    sx.check(p == r, 'the same packets are equal')
    sx.check(not (p != r), 'the same packets are not unequal')
    sx.reach('end')


PRELOAD = ['pgp.packets.packets']


# --- cases ---
def cases(tier):
    big = tier != 'quick'
    out = []
    for fmt in ('new', 'old'):
        for n in (0, 1, 20) + ((180, 200, 300) if big else ()):
            out.append(('h_pkesk', dict(n=n, wild=False, fmt=fmt)))
        out.append(('h_pkesk', dict(n=4, wild=True, fmt=fmt)))
        for mode in (0, 1, 3):
            for n in (0, 1, 17, 33):
                out.append(('h_skesk', dict(mode=mode, n=n, fmt=fmt)))
        out.append(('h_onepass', dict(fmt=fmt)))
        for tag in (6, 14):
            for version in (2, 3, 4):
                for alg in (1, 2, 3, 16, 17, 20):
                    bits = [[17, 9, 24, 12]]
                    if version == 4:
                        bits.append([1024, 17, 160, 1023])
                    if big:
                        bits += [[1, 0, 7, 8], [2048, 24, 256, 2047]]
                    for b in bits:
                        out.append(('h_public_key', dict(
                            tag=tag, version=version, alg=alg, bits=b,
                            fmt=fmt)))
        for tag in (5, 7):
            for version in (3, 4):
                for alg in ((1, 16, 17) if version == 4 else (1,)):
                    sizes = (0, 5, 40) if big else (5,)
                    for n in sizes:
                        for usage in (0, 1, 3, 9):
                            out.append(('h_secret_key', dict(
                                tag=tag, version=version, alg=alg,
                                usage=usage, mode=None, n=n, fmt=fmt)))
                        for usage in (254, 255):
                            for mode in (0, 1, 3):
                                out.append(('h_secret_key', dict(
                                    tag=tag, version=version, alg=alg,
                                    usage=usage, mode=mode, n=n, fmt=fmt)))
            for usage in (254, 255):
                for mode in (1, 2):
                    out.append(('h_gnu_dummy', dict(tag=tag, usage=usage,
                                                    mode=mode, fmt=fmt)))
        for n in (1, 2, 40):
            out.append(('h_compressed', dict(n=n, fmt=fmt)))
        for tag in (9, 18):
            for n in (1, 2, 40):
                if tag == 18 and fmt == 'old':
                    continue
                out.append(('h_encrypted', dict(tag=tag, n=n, fmt=fmt)))
        for n in (0, 1, 3, 7):
            out.append(('h_plain', dict(tag=10, n=n, fmt=fmt)))
        for kind in ('b', 't', 'u', 'u2', 'l', '1'):
            for name, n in ((0, 0), (0, 2), (3, 3), (8, 1)):
                out.append(('h_literal', dict(kind=kind, name=name, n=n,
                                              fmt=fmt)))
        for n in (1, 2):
            out.append(('h_trust', dict(n=n, fmt=fmt)))
        for n in (0, 1, 2, 3) + ((4,) if big else ()):
            out.append(('h_user_id', dict(n=n, fmt=fmt)))
    for tag in (61, 16):
        for n in (0, 1, 6):
            out.append(('h_comment', dict(tag=tag, n=n, fmt='new')))
    out.append(('h_plain', dict(tag=19, n=20, fmt='new')))
    for n in (0, 1, 19, 21):
        out.append(('h_mdc_size', dict(n=n)))
    for n in (0, 1, 30):
        out.append(('h_control', dict(n=n, fmt='new')))
        out.append(('h_any_tag', dict(n=n)))
    for lo, hi in ((0x20, 0x7e), (0x80, 0x7ff), (0x800, 0xd7ff),
                   (0x10000, 0x10ffff)):
        out.append(('h_literal_name', dict(lo=lo, hi=hi, n=3)))
        out.append(('h_user_id_text', dict(lo=lo, hi=hi, n=3)))
    for n in (1, 3):
        out.append(('h_user_id_changed', dict(n=n)))
    for subs in ([('image', 0)], [('image', 5)], [('other', 0)],
                 [('other', 4)], [('image', 3), ('other', 2)],
                 [('other', 2), ('other', 0), ('image', 1)],
                 [('image', 180)], [('other', 200), ('image', 1)],
                 [('other', 8400), ('other', 1)]):
        out.append(('h_attribute', dict(subs=subs, fmt='new')))
    for kind in ('onepass', 'pkesk', 'literal', 'skesk', 'rsa', 'sig3',
                 'sig4', 'trust', 'userid', 9, 18, 8, 10, 63, 'rsa3', 'dsa',
                 'elgamal', 'secret', 'secret-hash', 'secret-plain',
                 'secret-salt', 'image', 'attribute', 'attributes', 'mdc',
                 16, 61):
        out.append(('h_differ', dict(kind=kind)))
    return out
