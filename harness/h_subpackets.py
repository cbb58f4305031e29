"""Signature packets and their subpackets (RFC 4880 section 5.2)."""
from pgp import utils
from pgp.packets import constants
from pgp.packets import packets as pk
from pgp.packets import signature_subpackets as sp_
from hlib.util import Stream, be, new_frame, new_length, exact_mpi

NEW = constants.NEW_PACKET_HEADER_TYPE


def num(raw):
    n = 0
    for b in bytearray(raw):
        n = n * 256 + b
    return n


def hexid(raw):
    return utils.bytearray_to_hex(bytearray(raw))


def c_time(sx, i):
    b = sx.bytes('t%d' % i, 4)
    return b, {'time': num(b)}


def c_bool(field):
    def make(sx, i):
        v = sx.bool('v%d' % i)
        x = sx.ite(v, 1, 0)
        return be(x, 1), {field: v}
    return make


def c_trust(sx, i):
    b = sx.bytes('t%d' % i, 2)
    return b, {'depth': bytearray(b)[0], 'amount': bytearray(b)[1]}


def c_regex(sx, i):
    t = sx.text('re%d' % i, 3, 1, 126)
    return t.encode('ascii') + b'\x00', {'pattern': t}


def c_list(n):
    def make(sx, i):
        b = sx.bytes('l%d' % i, n)
        return b, {'preferred_algorithms': list(bytearray(b))}
    return make


def c_revkey(sx, i):
    s = sx.bool('s%d' % i)
    b = sx.bytes('f%d' % i, 21)
    return (be(sx.ite(s, 0xc0, 0x80), 1) + b,
            {'sensitive': s, 'public_key_algorithm': bytearray(b)[0],
             'fingerprint': hexid(b[1:])})


def c_arr(sx, i):
    s = sx.bool('s%d' % i)
    b = sx.bytes('f%d' % i, 21)
    return (be(sx.ite(s, 0x80, 0), 1) + b,
            {'strong_request': s, 'public_key_algorithm': bytearray(b)[0],
             'fingerprint': hexid(b[1:])})


def c_issuer(sx, i):
    b = sx.bytes('id%d' % i, 8)
    return b, {'key_id': hexid(b)}


def c_notation(human, wide=None):
    def make(sx, i):
        name = sx.text('n%d' % i, 2, 0x61, 0x7a)
        ns = sx.text('ns%d' % i, 2, 0x41, 0x7a)
        if wide == 'name':
            name = name + sx.text('w%d' % i, 1, 0x80, 0x7ff)
        elif wide == 'namespace':
            ns = sx.text('w%d' % i, 1, 0x800, 0xd7ff) + ns
        if human:
            v = sx.text('v%d' % i, 3, 0, 0x7f)
            if wide == 'value':
                v = v + sx.text('w%d' % i, 1, 0x80, 0x7ff)
            elif wide == 'value3':
                v = sx.text('w%d' % i, 1, 0x800, 0xd7ff) + v
            raw = v.encode('utf8')
        else:
            v = raw = sx.bytes('v%d' % i, 3)
        full = name.encode('utf8') + b'@' + ns.encode('utf8')
        return (be(0x80 if human else 0, 1) + bytes(bytearray(3)) +
                be(len(full), 2) + be(len(raw), 2) + full + raw,
                {'name': name, 'namespace': ns, 'human_readable': human,
                 'value': v})
    return make


def c_ksprefs(sx, i):
    b = sx.bytes('k%d' % i, 1)
    return b, {'no_modify': (bytearray(b)[0] & 0x80) != 0}


def c_text(field, wide=False):
    def make(sx, i):
        t = sx.text('u%d' % i, 4, 1, 126)
        if wide:
            t = t + sx.text('w%d' % i, 1, 0x80, 0x7ff)
        return t.encode('utf8'), {field: t}
    return make


def c_flags(n):
    def make(sx, i):
        b = sx.bytes('f%d' % i, n)
        f = bytearray(b)[0]
        return b, {'may_certify_others': (f & 1) != 0,
                   'may_sign_data': (f & 2) != 0,
                   'may_encrypt_comms': (f & 4) != 0,
                   'may_encrypt_storage': (f & 8) != 0,
                   'may_have_been_split': (f & 16) != 0,
                   'may_be_used_for_auth': (f & 32) != 0,
                   'may_have_multiple_owners': (f & 128) != 0}
    return make


def c_reason(sx, i, wide=False):
    c = sx.bytes('c%d' % i, 1)
    t = sx.text('r%d' % i, 3, 1, 126)
    if wide:
        t = sx.text('w%d' % i, 1, 0x80, 0x7ff) + t
    return c + t.encode('utf8'), {'revocation_code': bytearray(c)[0],
                                  'revocation_reason': t}


def c_reason_wide(sx, i):
    return c_reason(sx, i, True)


def c_features(sx, i):
    b = sx.bytes('f%d' % i, 1)
    return b, {'supports_modification_detection':
               (bytearray(b)[0] & 1) != 0}


def c_target(sx, i):
    a = sx.bytes('a%d' % i, 1)
    h = sx.choose('h%d' % i, [1, 2, 8, 10, 11])
    d = sx.bytes('d%d' % i, utils.hash_lengths[h])
    return (a + be(h, 1) + d,
            {'public_key_algorithm': bytearray(a)[0], 'hash_algorithm': h,
             'hash': hexid(d)})


def c_embedded(sx, i):
    t = sx.bytes('et%d' % i, 4)
    k = sx.bytes('ek%d' % i, 8)
    h = sx.bytes('eh%d' % i, 2)
    m, v = exact_mpi(sx, 'em%d' % i, 17)
    body = (b'\x04\x19\x01\x08\x00\x06\x05\x02' + t + b'\x00\x0a\x09\x10' +
            k + h + m)
    return body, {'signature': body}


def c_none(n):
    def make(sx, i):
        return sx.bytes('x%d' % i, n), {}
    return make


TYPES = {
    'creation': (2, c_time), 'expires': (3, c_time),
    'exportable': (4, c_bool('exportable')), 'trust': (5, c_trust),
    'regex': (6, c_regex), 'revocable': (7, c_bool('revocable')),
    'key_expires': (9, c_time), 'arr': (10, c_arr),
    'sym': (11, c_list(3)), 'sym0': (11, c_list(0)),
    'revkey': (12, c_revkey), 'issuer': (16, c_issuer),
    'notation': (20, c_notation(True)), 'notation_b': (20, c_notation(False)),
    'hash': (21, c_list(2)), 'zip': (22, c_list(2)),
    'ksprefs': (23, c_ksprefs), 'ks': (24, c_text('uri')),
    'primary': (25, c_bool('primary')), 'policy': (26, c_text('uri')),
    'flags': (27, c_flags(1)), 'flags2': (27, c_flags(2)),
    'signer': (28, c_text('user_id')), 'reason': (29, c_reason),
    'features': (30, c_features), 'target': (31, c_target),
    'embedded': (32, c_embedded),
    'unknown': (100, c_none(3)), 'unknown0': (13, c_none(0)),
    'unknown33': (33, c_none(21)), 'unknown_long': (110, c_none(200)),
    'unknown_huge': (127, c_none(8400)), 'reserved': (0, c_none(2)),
    'notation_n': (20, c_notation(True, 'name')),
    'notation_ns': (20, c_notation(False, 'namespace')),
    'notation_v': (20, c_notation(True, 'value')),
    'notation_v3': (20, c_notation(True, 'value3')),
    'ks_w': (24, c_text('uri', True)), 'signer_w': (28, c_text('user_id',
                                                               True)),
    'reason_w': (29, c_reason_wide), 'policy_w': (26, c_text('uri', True)),
}


def encode_length(n, style):
    if style == 'five':
        return b'\xff' + be(n, 4)
    return new_length(n)


def subpacket(sx, i, kind, style='short'):
    ty, make = TYPES[kind]
    content, fields = make(sx, i)
    crit = sx.bool('crit%d' % i)
    tagoctet = sx.ite(crit, ty + 128, ty)
    data = encode_length(len(content) + 1, style) + be(tagoctet, 1) + content
    return data, (ty, crit, fields)


def check_sub(sx, s, exp, where):
    ty, crit, fields = exp
    sx.check(s.type == ty, where + ': type')
    sx.check(sx.eq(bool(s.critical), bool(crit)), where + ': critical')
    for k in sorted(fields):
        v = getattr(s, k)
        e = fields[k]
        if k == 'signature':
            v = bytes(v.content)
        elif k in ('supports_modification_detection',):
            v, e = bool(v), bool(e)
        elif isinstance(e, (bytes, bytearray)):
            v = bytes(v)
        sx.check(sx.eq(v, e), where + ': ' + k)


def sig_body(sx, hashed, unhashed, bits=(17,)):
    head = sx.bytes('head', 3)
    h2 = sx.bytes('hash2', 2)
    mpis = b''
    vals = []
    for i, b in enumerate(bits):
        m, v = exact_mpi(sx, 'm%d' % i, b)
        mpis += m
        vals.append(v)
    body = (b'\x04' + head + be(len(hashed), 2) + hashed +
            be(len(unhashed), 2) + unhashed + h2 + mpis)
    return body, head, h2, vals


def h_area(sx, hashed, unhashed, style='short', bits=(17,)):
    """Subpackets of every type, in either area, are read, stay where they
    are, and are written as the same octets."""
    areas = []
    n = 0
    for names in (hashed, unhashed):
        data = b''
        exp = []
        for kind in names:
            d, e = subpacket(sx, n, kind, style)
            n += 1
            data += d
            exp.append(e)
        areas.append((data, exp))
    body, head, h2, vals = sig_body(sx, areas[0][0], areas[1][0], bits)
    frame = new_frame(2, body)
    off, p = pk.packet_from_packet_data(bytearray(frame + b'\x00'), 0)
    sx.check(off == len(frame), 'length')
    sx.check(p.version == 4, 'version')
    sx.check(sx.eq(p.signature_type, bytearray(head)[0]), 'signature type')
    sx.check(sx.eq(p.public_key_algorithm, bytearray(head)[1]), 'algorithm')
    sx.check(sx.eq(p.hash_algorithm, bytearray(head)[2]), 'hash')
    sx.check(sx.eq(bytes(p.hash2), h2), 'hash check octets')
    sx.check(sx.eq(list(p.signature_values), vals), 'signature values')
    for where, got, (data, exp) in (
            ('hashed', p.hashed_subpackets, areas[0]),
            ('unhashed', p.unhashed_subpackets, areas[1])):
        sx.check(len(got) == len(exp), where + ': number')
        for s, e in zip(got, exp):
            check_sub(sx, s, e, where)
        out = b''
        for s in got:
            out += bytes(s)
        sx.check(sx.eq(out, data), where + ': same octets')
    sx.check(sx.eq(bytes(p.content), body), 'same body')
    sx.check(sx.eq(bytes(p), frame), 'same octets')
    trailer = bytes(p.get_signature_hash_trailer())
    area = areas[0][0]
    sx.check(sx.eq(trailer, b'\x04' + head + be(len(area), 2) + area +
                   b'\x04\xff' + be(len(area) + 6, 4)), 'hash trailer')
    q = pk.packet_from_packet_stream(Stream(frame))
    sx.check(sx.eq(bytes(q), frame), 'stream: same octets')
    if len(body) < 1000:
        sx.check(p == q, 'equal')
    sx.reach('end')


def h_noncanonical(sx, kind, raw):
    """Contents the fields can't hold are written as they were read."""
    ty = TYPES[kind][0]
    n = raw
    content = sx.bytes('c', n)
    data = new_length(n + 1) + be(ty, 1) + content
    try:
        s, off = sp_.signature_subpacket_from_data(bytearray(data), 0)
    except Exception:
        sx.reach('refused')
        return
    sx.check(off == len(data), 'length')
    sx.check(sx.eq(bytes(s), data), 'same octets')
    sx.check(s.type == ty, 'type')
    sx.reach('kept')


def h_changed(sx, kind, field):
    """A field changed after reading is what is written."""
    d, (ty, crit, fields) = subpacket(sx, 0, kind)
    d2, (ty2, crit2, fields2) = subpacket(sx, 1, kind)
    s, off = sp_.signature_subpacket_from_data(bytearray(d), 0)
    for k in fields2:
        setattr(s, k, fields2[k])
    s.critical = crit2
    sx.check(sx.eq(bytes(s), d2), 'the new fields')
    sx.reach('end')


def h_made(sx, kind):
    """Subpackets made from fields are those read from octets."""
    d, (ty, crit, f) = subpacket(sx, 0, kind)
    if kind.endswith('_w'):
        kind = kind[:-2]
    if kind in ('creation', 'expires', 'key_expires'):
        cls = {'creation': sp_.CreationTimeSubpacket,
               'expires': sp_.ExpirationSecondsSubpacket,
               'key_expires': sp_.KeyExpirationTimeSubpacket}[kind]
        s = cls(crit, f['time'])
    elif kind == 'exportable':
        s = sp_.ExportableSubpacket(crit, f['exportable'])
    elif kind == 'trust':
        s = sp_.TrustSubpacket(crit, f['depth'], f['amount'])
    elif kind == 'regex':
        s = sp_.RegularExpressionSubpacket(crit, f['pattern'])
    elif kind == 'revocable':
        s = sp_.RevocableSubpacket(crit, f['revocable'])
    elif kind == 'arr':
        s = sp_.AdditionalRecipientRequestSubpacket(
            crit, f['strong_request'], f['public_key_algorithm'],
            f['fingerprint'])
    elif kind in ('sym', 'hash', 'zip'):
        cls = {'sym': sp_.PreferredSymmetricAlgorithmsSubpacket,
               'hash': sp_.PreferredHashAlgorithmsSubpacket,
               'zip': sp_.PreferredCompressionAlgorithmsSubpacket}[kind]
        s = cls(crit, f['preferred_algorithms'])
    elif kind == 'revkey':
        s = sp_.RevocationKeySubpacket(crit, f['fingerprint'],
                                       f['public_key_algorithm'],
                                       f['sensitive'])
    elif kind == 'issuer':
        s = sp_.IssuerSubpacket(crit, f['key_id'])
    elif kind.startswith('notation'):
        s = sp_.NotationSubpacket(crit, f['name'], f['namespace'],
                                  f['human_readable'], f['value'])
    elif kind == 'ksprefs':
        sx.assume(bytearray(d)[2] & 0x7f == 0)
        s = sp_.KeyServerPreferencesSubpacket(crit, f['no_modify'])
    elif kind == 'ks':
        s = sp_.PreferredKeyServerSubpacket(crit, f['uri'])
    elif kind == 'primary':
        s = sp_.PrimaryUserIDSubpacket(crit, f['primary'])
    elif kind == 'policy':
        s = sp_.PolicyURISubpacket(crit, f['uri'])
    elif kind == 'flags':
        sx.assume(bytearray(d)[2] & 0x40 == 0)
        s = sp_.KeyFlagsSubpacket(crit, **f)
    elif kind == 'signer':
        s = sp_.UserIDSubpacket(crit, f['user_id'])
    elif kind == 'reason':
        s = sp_.RevocationReasonSubpacket(crit, f['revocation_code'],
                                          f['revocation_reason'])
    elif kind == 'features':
        sx.assume(bytearray(d)[2] & 0xfe == 0)
        s = sp_.FeaturesSubpacket(crit,
                                  f['supports_modification_detection'])
    elif kind == 'target':
        s = sp_.TargetSubpacket(crit, f['public_key_algorithm'],
                                f['hash_algorithm'], f['hash'])
    elif kind == 'embedded':
        inner = pk.SignaturePacket.from_packet_content(
            NEW, 2, bytearray(f['signature']))
        s = inner.to_embedded_subpacket(crit)
    sx.check(s.type == ty, 'type')
    sx.check(sx.eq(bytes(s), d), 'octets')
    t, off = sp_.signature_subpacket_from_data(bytearray(bytes(s)), 0)
    sx.check(s == t, 'equal to the one that is read')
    sx.check(sx.eq(hash(s), hash(t)), 'same hash')
    check_sub(sx, t, (ty, crit, f), 'read')
    sx.reach('end')


def h_overrun(sx, n, area, declared):
    """A subpacket that says it is longer than its area is refused: it never
    takes octets of what follows."""
    c = sx.bytes('c', n)
    ty = sx.int('ty', 100, 110)
    bad = be(declared + 1, 1) + be(ty, 1) + c
    good = b'\x05\x02' + sx.bytes('t', 4)
    hashed, unhashed = (bad, good) if area == 'hashed' else (good, bad)
    body, head, h2, vals = sig_body(sx, hashed, unhashed)
    try:
        pk.packet_from_packet_data(bytearray(new_frame(2, body)), 0)
    except Exception:
        sx.reach('refused')
        return
    sx.fail('read')


def any_area(sx, name, n):
    """n octets of subpackets of unknown types, the last of which may say
    that it is longer than the area, or too short for a type."""
    out = b''
    k = 0
    while len(out) < n:
        left = n - len(out) - 1
        size = sx.choose('%s.len%d' % (name, k), range(left + 3))
        take = min(size, left)
        part = sx.bytes('%s.sub%d' % (name, k), take)
        if take:
            ty = bytearray(part)[0] & 0x7f
            sx.assume(sx.all(ty >= 100, ty <= 110))
        out += be(size, 1) + part
        k += 1
    return out


def h_confined(sx, n, m):
    """Whatever is in the areas: the hashed area's octets are what is
    reported as hashed, and nothing else is."""
    hashed = any_area(sx, 'h', n)
    unhashed = any_area(sx, 'u', m)
    body, head, h2, vals = sig_body(sx, hashed, unhashed)
    try:
        off, p = pk.packet_from_packet_data(
            bytearray(new_frame(2, body)), 0)
    except Exception:
        sx.reach('refused')
        return
    a = b''.join([bytes(s) for s in p.hashed_subpackets])
    b = b''.join([bytes(s) for s in p.unhashed_subpackets])
    sx.check(sx.eq(a, hashed), 'hashed area')
    sx.check(sx.eq(b, unhashed), 'unhashed area')
    sx.check(sx.eq(bytes(p.content), body), 'same body')
    sx.reach('read')


def h_version3(sx, version, bits):
    head = sx.bytes('type', 1)
    t = sx.bytes('time', 4)
    key = sx.bytes('key', 8)
    algs = sx.bytes('algs', 2)
    h2 = sx.bytes('hash2', 2)
    mpis = b''
    vals = []
    for i, b in enumerate(bits):
        m, v = exact_mpi(sx, 'm%d' % i, b)
        mpis += m
        vals.append(v)
    body = be(version, 1) + b'\x05' + head + t + key + algs + h2 + mpis
    frame = new_frame(2, body)
    off, p = pk.packet_from_packet_data(bytearray(frame), 0)
    sx.check(p.version == version, 'version')
    sx.check(sx.eq(p.signature_type, bytearray(head)[0]), 'type')
    sx.check(sx.eq(p.creation_time, num(t)), 'time')
    sx.check(sx.eq(p.key_id, hexid(key)), 'key ID')
    sx.check(sx.eq(p.public_key_algorithm, bytearray(algs)[0]), 'algorithm')
    sx.check(sx.eq(p.hash_algorithm, bytearray(algs)[1]), 'hash')
    sx.check(sx.eq(bytes(p.hash2), h2), 'hash check octets')
    sx.check(sx.eq(list(p.signature_values), vals), 'values')
    sx.check(sx.eq(bytes(p), frame), 'same octets')
    sx.check(sx.eq(bytes(p.get_signature_hash_trailer()), head + t),
             'hash trailer')
    q = pk.SignaturePacket(NEW, version, p.signature_type,
                           p.public_key_algorithm, p.hash_algorithm,
                           p.hash2, p.signature_values,
                           p.creation_time, p.key_id)
    sx.check(p == q, 'equal to one made from its fields')
    sx.check(sx.eq(bytes(q), frame), 'made from fields')
    sx.reach('end')


def h_bad(sx, what):
    rest = sx.bytes('rest', 24)
    if what == 'version':
        v = sx.int('v', 0, 255)
        sx.assume(sx.all(v != 2, v != 3, v != 4))
        body = be(v, 1) + rest
    else:
        m = sx.int('m', 0, 255)
        sx.assume(m != 5)
        body = b'\x03' + be(m, 1) + rest
    try:
        pk.packet_from_packet_data(bytearray(new_frame(2, body)), 0)
    except Exception:
        sx.reach('refused')
        return
    sx.fail('accepted')


PRELOAD = ['pgp.packets.packets']


# --- cases ---
def cases(tier):
    big = tier != 'quick'
    single = ['creation', 'expires', 'exportable', 'trust', 'regex',
              'revocable', 'key_expires', 'arr', 'sym', 'sym0', 'revkey',
              'issuer', 'notation', 'notation_b', 'hash', 'zip', 'ksprefs',
              'ks', 'primary', 'policy', 'flags', 'flags2', 'signer',
              'reason', 'features', 'target', 'embedded', 'unknown',
              'unknown0', 'unknown33', 'unknown_long', 'reserved',
              'notation_n', 'notation_ns', 'notation_v', 'notation_v3',
              'ks_w', 'signer_w', 'reason_w', 'policy_w']
    out = []
    for k in single:
        out.append(('h_area', dict(hashed=[k], unhashed=[])))
        out.append(('h_area', dict(hashed=[], unhashed=[k])))
        out.append(('h_area', dict(hashed=['creation'], unhashed=[k, 'issuer']
                                   if k not in ('flags', 'target')
                                   else [k], style='five')))
    for h, u in ((['creation', 'issuer'], []),
                 (['issuer', 'creation', 'unknown'], ['issuer']),
                 (['creation', 'creation'], ['issuer', 'issuer']),
                 (['unknown', 'unknown0', 'unknown'], ['unknown0']),
                 ([], []), (['unknown_long', 'creation'], ['unknown_long']),
                 (['creation', 'sym', 'hash', 'zip'], ['issuer']),
                 (['unknown_huge'], ['creation'])):
        out.append(('h_area', dict(hashed=h, unhashed=u)))
    for bits in ((1024,), (160, 159), (8, 9, 1), ()):
        out.append(('h_area', dict(hashed=['creation'], unhashed=['issuer'],
                                   bits=bits)))
    for k, ns in (('flags', (1, 2, 3)), ('features', (1, 2)),
                  ('ksprefs', (1, 4)), ('regex', (1, 2, 3)),
                  ('ks', (1, 2, 3)), ('policy', (2,)), ('signer', (1, 2)),
                  ('reason', (1, 2, 3)), ('arr', (22,)), ('revkey', (22,)),
                  ('notation', (8, 9, 10)), ('primary', (1, 2)),
                  ('exportable', (1, 2)), ('revocable', (1,)),
                  ('trust', (2, 3)), ('creation', (4, 5)),
                  ('issuer', (8, 7)), ('target', (3, 22)),
                  ('unknown', (0, 5))):
        for n in ns:
            out.append(('h_noncanonical', dict(kind=k, raw=n)))
    for k in ('creation', 'expires', 'key_expires', 'exportable', 'trust',
              'regex', 'revocable', 'sym', 'revkey', 'issuer', 'notation',
              'notation_b', 'hash', 'zip', 'ks', 'primary', 'policy',
              'signer', 'reason'):
        out.append(('h_changed', dict(kind=k, field=None)))
    for k in ('creation', 'expires', 'key_expires', 'exportable', 'trust',
              'regex', 'revocable', 'arr', 'sym', 'revkey', 'issuer',
              'notation', 'notation_b', 'hash', 'zip', 'ksprefs', 'ks',
              'primary', 'policy', 'flags', 'signer', 'reason', 'features',
              'target', 'embedded', 'notation_n', 'notation_ns',
              'notation_v', 'notation_v3', 'ks_w', 'signer_w', 'reason_w',
              'policy_w'):
        out.append(('h_made', dict(kind=k), dict(deadline_s=120)))
    for area in ('hashed', 'unhashed'):
        for n, d in ((0, 1), (2, 3), (3, 10), (1, 100)):
            out.append(('h_overrun', dict(n=n, area=area, declared=d)))
    for n, m in ((0, 0), (1, 0), (0, 1), (2, 1), (2, 2), (3, 2),
                 (4, 3), (5, 0)) + (
            ((5, 5), (6, 4), (8, 2)) if big else ()):
        out.append(('h_confined', dict(n=n, m=m)))
    for v in (2, 3):
        for bits in ((17,), (160, 159), (1024,)):
            out.append(('h_version3', dict(version=v, bits=bits)))
    out.append(('h_bad', dict(what='version')))
    out.append(('h_bad', dict(what='material')))
    return out
