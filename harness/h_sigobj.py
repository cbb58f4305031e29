"""The properties of signature objects."""
import datetime

from pgp import transferrable_keys as tk
from pgp.packets import packets as pk
from pgp.packets.parsers import parse_binary_packet_data
from hlib import real
from hlib.keys import sig3_body, sig4_body, subpacket
from hlib.sigitems import FLAGS, KEY_MADE, LISTS, MADE, given, hexa, item, \
    plain, same_value, when
from hlib.util import be, mpi, new_frame

KEEP = []


def owner(kind):
    """What is signed."""
    primary = tk.TransferablePublicKey.from_packets(
        [real.packet(6, real.public_body(1, 'rsa', KEY_MADE))])
    KEEP.append(primary)
    if kind == 'key':
        return primary
    if kind == 'sub':
        return tk.PublicSubkey.from_packet(primary, real.packet(
            14, real.public_body(16, 'elg', KEY_MADE)))
    return tk.UserID.from_packet(primary, real.packet(13, b'abc'))


REST = [(2, be(MADE, 4)), (16, b'ABCDEFGH'), (101, b'xyz')]


def rest_for(prop):
    return [r for r in REST if not (
        r[0] == 2 and prop == 'creation_time' or
        r[0] == 16 and prop == 'issuer_key_ids')]


def area(subs):
    return b''.join([subpacket(t, d) for t, d in subs])


def make(prop, hashed, unhashed, kind):
    body = sig4_body({'key': 0x1f, 'sub': 0x18, 'uid': 0x13}[kind], 17, 2,
                     area(hashed), area(unhashed), b'ab',
                     mpi(0x1234) + mpi(0x55))
    p = pk.packet_from_packet_data(bytearray(new_frame(2, body)), 0)[1]
    target = owner(kind)
    KEEP.append(target)
    return tk.KeySignature.from_packet(p, target), target


def split(octets):
    """[(type, octets)] of an area."""
    out = []
    i = 0
    while i < len(octets):
        n = bytearray(octets)[i]
        out.append((bytearray(octets)[i + 1], octets[i + 2:i + 1 + n]))
        i += 1 + n
    return out


def areas(packet):
    body = bytes(packet.content)
    n = bytearray(body)[4] * 256 + bytearray(body)[5]
    k = 6 + n
    m = bytearray(body)[k] * 256 + bytearray(body)[k + 1]
    return split(body[6:k]), split(body[k + 2:k + 2 + m])


def h_get(sx, prop, kind, where):
    """What a signature says of itself."""
    del KEEP[:]
    hashed = rest_for(prop)
    unhashed = []
    values = []
    for i, w in enumerate(where):
        type_, data, v = item(sx, prop, 'item%d' % i)
        (hashed if w == 'h' else unhashed).append((type_, data))
        values.append((w, v))
    values = [v for w, v in values if w == 'h'] + \
        [v for w, v in values if w == 'u']
    sig, target = make(prop, hashed, unhashed, kind)
    got = getattr(sig, prop)
    if prop in LISTS:
        got = list(got)
        sx.check(len(got) == len(values), 'how many')
        for g, v in zip(got, values):
            sx.check(same_value(sx, prop, plain(prop, g), v), 'element')
    elif values:
        sx.check(same_value(sx, prop, got, values[0]), 'value')
    else:
        sx.check(got is None, 'absent')
    sx.check(sx.eq(bytes(sig.to_packet().content),
                   bytes(make(prop, hashed, unhashed, kind)[0]
                         .to_packet().content)), 'unchanged')
    sx.reach('read')


def h_never(sx, prop, kind):
    """No time at all is no expiration."""
    del KEEP[:]
    type_ = 3 if prop == 'signature_expiration_time' else 9
    sig, target = make(prop, rest_for(prop) + [(type_, be(0, 4))], [], kind)
    sx.check(getattr(sig, prop) is None, 'never')
    setattr(sig, prop, None)
    sx.check(getattr(sig, prop) is None, 'still never')
    type_, data, v = item(sx, prop, 'item')
    setattr(sig, prop, v)
    sx.check(sx.eq(getattr(sig, prop), v), 'set')
    setattr(sig, prop, None)
    sx.check(getattr(sig, prop) is None, 'never again')
    early = when(MADE if type_ == 3 else KEY_MADE) - \
        datetime.timedelta(seconds=sx.int('early', 1, 100000))
    try:
        setattr(sig, prop, early)
        good = True
    except ValueError:
        good = False
    sx.check(not good, 'before it began')
    sx.check(getattr(sig, prop) is None, 'unchanged')
    sx.reach('done')


def reread(sig, target):
    data = bytes(sig.to_packet())
    return tk.KeySignature.from_packet(
        list(parse_binary_packet_data(data))[0], target)


def h_set(sx, prop, kind, where):
    """What is set is what is written, and nothing else changes."""
    del KEEP[:]
    hashed = rest_for(prop)
    unhashed = [(102, b'q')]
    for i, w in enumerate(where):
        type_, data, v = item(sx, prop, 'item%d' % i)
        (hashed if w == 'h' else unhashed).append((type_, data))
    type_, data, v = item(sx, prop, 'new')
    sig, target = make(prop, hashed, unhashed, kind)
    if prop == 'revocation_code':
        # the text stays
        data = be(v, 1) + (hashed[-1][1][1:] if where else b'')
    elif prop == 'revocation_reason':
        data = (hashed[-1][1][:1] if where else b'\x00') + \
            v.encode('ascii')
    elif prop == 'trust_depth':
        data = be(v, 1) + (hashed[-1][1][1:] if where else b'\x00')
    elif prop == 'trust_amount':
        data = (hashed[-1][1][:1] if where else b'\x00') + be(v, 1)
    elif prop in FLAGS:
        # the other flags stay
        old = bytearray(hashed[-1][1])[0] if where else 0
        bit = 1 << FLAGS.index(prop)
        data = be(sx.ite(v, old | bit, old & (255 - bit)), 1)
        if where:
            sx.assume(old & 0x40 == 0)
    setattr(sig, prop, v)
    sx.check(same_value(sx, prop, getattr(sig, prop), v), 'value')
    again = reread(sig, target)
    sx.check(same_value(sx, prop, getattr(again, prop), v), 'value read')
    got_h, got_u = areas(sig.to_packet())
    want_h = [(t, d) for t, d in hashed if t != type_]
    want_u = [(t, d) for t, d in unhashed if t != type_]
    sx.check([t for t, _ in got_u if t != type_] == [t for t, _ in want_u],
             'unhashed types')
    others = [(t, d) for t, d in got_h if t != type_]
    sx.check([t for t, _ in others] == [t for t, _ in want_h],
             'hashed types')
    for (_, d), (_, e) in zip(others, want_h):
        sx.check(sx.eq(d, e), 'others')
    mine = [d for t, d in got_h if t == type_]
    sx.check(len(mine) == 1, 'one of them')
    sx.check(sx.eq(mine[0], data), 'octets')
    sx.check(bytes(sig.hash2) == b'ab' and
             list(sig.signature_values) == [0x1234, 0x55],
             'signature')
    sx.reach('set')


def h_list(sx, prop, kind, where, keep, new):
    """A list that is set leaves what it has not."""
    del KEEP[:]
    hashed = rest_for(prop)
    unhashed = []
    old = []
    for i, w in enumerate(where):
        type_, data, v = item(sx, prop, 'item%d' % i)
        for _, d, _ in old:
            sx.assume(sx.no(sx.eq(d, data)))
        (hashed if w == 'h' else unhashed).append((type_, data))
        old.append((w, data, v))
    sig, target = make(prop, hashed, unhashed, kind)
    want = [old[i] for i in keep]
    for i in range(new):
        type_, data, v = item(sx, prop, 'new%d' % i)
        for _, d, _ in old + want:
            sx.assume(sx.no(sx.eq(d, data)))
        want.append(('h', data, v))
    setattr(sig, prop, [given(prop, v, target) for _, _, v in want])
    n = len(want)
    for s, what in ((sig, 'set'), (reread(sig, target), 'read')):
        got = [plain(prop, g) for g in getattr(s, prop)]
        sx.check(len(got) == n, what + ' how many')
        for _, _, v in want:
            sx.check(sx.either(*[same_value(sx, prop, g, v) for g in got]),
                     what + ' element')
    got_h, got_u = areas(sig.to_packet())
    mine = [d for t, d in got_h + got_u if t == type_]
    sx.check(len(mine) == n, 'how many octets')
    for _, d, _ in want:
        sx.check(sx.either(*[sx.eq(d, e) for e in mine]), 'octets')
    others = [(t, d) for t, d in got_h if t != type_]
    wanted = [(t, d) for t, d in hashed if t != type_]
    sx.check(others == wanted, 'others')
    sx.reach('list')


def h_twice(sx, prop, where):
    """What is there twice is gone when it is dropped, in both areas."""
    del KEEP[:]
    type_, data, v = item(sx, prop, 'item')
    _, data2, v2 = item(sx, prop, 'other')
    sx.assume(sx.no(sx.eq(data, data2)))
    hashed = rest_for(prop)
    unhashed = []
    for w in where:
        (hashed if w == 'h' else unhashed).append((type_, data))
    sig, target = make(prop, hashed, unhashed, 'key')
    sx.check(len(getattr(sig, prop)) == len(where), 'both')
    setattr(sig, prop, [given(prop, v2, target)])
    got_h, got_u = areas(sig.to_packet())
    mine = [d for t, d in got_h + got_u if t == type_]
    sx.check(len(mine) == 1, 'one')
    sx.check(sx.eq(mine[0], data2), 'the new one')
    sx.reach('twice')


def h_three(sx, version):
    """Version 3 signatures have their time and issuer in fields."""
    del KEEP[:]
    t = sx.int('time', MADE - 10000, MADE + 10000)
    key8 = b'abcdef' + sx.bytes('issuer', 2)
    body = sig3_body(0x10, be(t, 4), key8, 17, 2, sx.bytes('hash2', 2),
                     mpi(0x1234) + mpi(0x55), version)
    target = owner('uid')
    p = pk.packet_from_packet_data(bytearray(new_frame(2, body)), 0)[1]
    sig = tk.KeySignature.from_packet(p, target)
    sx.check(sx.eq(sig.creation_time, when(t)), 'time')
    sx.check(len(sig.issuer_key_ids) == 1, 'one issuer')
    sx.check(sx.eq(sig.issuer_key_ids[0], hexa(key8)), 'issuer')
    sx.check(sig.signature_expiration_time is None, 'expiration')
    sx.check(sig.expired is False, 'expired')
    sx.check(sig.signature_type == 0x10 and sig.version == version, 'fields')
    sx.check(sx.eq(bytes(sig.to_packet().content), body), 'written')
    u = sx.int('later', MADE - 10000, MADE + 10000)
    new8 = b'abcdef' + sx.bytes('new issuer', 2)
    sig.creation_time = when(u)
    sig.issuer_key_ids = [hexa(new8)]
    want = body[:3] + be(u, 4) + new8 + body[15:]
    sx.check(sx.eq(bytes(sig.to_packet().content), want), 'set')
    try:
        sig.issuer_key_ids = [hexa(new8), hexa(key8)]
        good = True
    except ValueError:
        good = False
    sx.check(not good, 'two issuers')
    sx.reach('three')


def h_made(sx, version, kind):
    """A signature made from values says them."""
    del KEEP[:]
    t = sx.int('time', MADE - 10000, MADE + 10000)
    key8 = b'abcdef' + sx.bytes('issuer', 2)
    target = owner(kind)
    sig = tk.KeySignature(target, version, 0x10, 17, 2, bytearray(b'ab'),
                          (0x1234, 0x55), t, hexa(key8))
    sx.check(sx.eq(sig.creation_time, when(t)), 'time')
    sx.check(len(sig.issuer_key_ids) == 1, 'one issuer')
    sx.check(sx.eq(sig.issuer_key_ids[0], hexa(key8)), 'issuer')
    again = reread(sig, target)
    sx.check(sx.eq(again.creation_time, when(t)), 'time read')
    sx.check(sx.eq(again.issuer_key_ids[0], hexa(key8)), 'issuer read')
    sx.check(again == sig, 'same')
    sx.reach('made')


def h_moved(sx, where, gap):
    """A signature whose time is moved expires when it did before."""
    del KEEP[:]
    s = sx.int('seconds', gap, gap + 60000)
    hashed = [(16, b'ABCDEFGH'), (2, be(MADE, 4))]
    unhashed = []
    (hashed if where == 'h' else unhashed).append((3, be(s, 4)))
    sig, target = make('', hashed, unhashed, 'uid')
    u = sx.int('moved', MADE - 10000, MADE + gap - 1)
    sig.creation_time = when(u)
    sx.check(sx.eq(sig.creation_time, when(u)), 'time')
    sx.check(sx.eq(sig.signature_expiration_time, when(MADE + s)),
             'expiration')
    sx.check(sx.eq(reread(sig, target).signature_expiration_time,
                   when(MADE + s)), 'expiration read')
    sx.reach('moved')


def h_expired(sx, seconds):
    """A signature has expired once its time is over."""
    del KEEP[:]
    now = sx.int('now', MADE - 100000, MADE + 100000)
    sx.clock(now)
    if seconds is None:
        s = sx.int('seconds', 1, 60000)
        subs = [(3, be(s, 4))]
        over = now > MADE + s
    else:
        subs = [(3, be(0, 4))] if seconds == 0 else []
        over = False
        s = 0
    sig, target = make('', REST + subs, [], 'uid')
    got = sig.expired
    sx.check(isinstance(got, bool), 'bool')
    sx.assume(now != MADE + s)
    if got:
        sx.check(over, 'not yet')
    else:
        sx.check(sx.no(over), 'expired')
    sx.reach('expired' if got else 'valid')


def h_equal(sx, version):
    """Signatures are equal when their octets are, and hash alike."""
    del KEEP[:]
    target = owner('uid')
    sigs = []
    bodies = []
    for tag in 'ab':
        if version == 4:
            body = sig4_body(0x10, 17, 2, area(REST) + subpacket(
                103, sx.bytes(tag + ' sub', 1)), b'', sx.bytes(tag, 2),
                mpi(0x1234) + mpi(0x55))
        else:
            body = sig3_body(0x10, be(MADE, 4), b'abcdefgh', 17, 2,
                             sx.bytes(tag, 2), mpi(0x1234) + mpi(0x55),
                             version)
        p = pk.packet_from_packet_data(bytearray(new_frame(2, body)), 0)[1]
        sigs.append(tk.KeySignature.from_packet(p, target))
        bodies.append(body)
    same = sx.eq(bodies[0], bodies[1])
    if sigs[0] == sigs[1]:
        sx.check(same, 'equal')
        sx.check(hash(sigs[0]) == hash(sigs[1]), 'hash')
        sx.reach('equal')
    else:
        sx.check(sx.no(same), 'unequal')
        sx.reach('unequal')


# --- cases ---
def cases(tier):
    thorough = tier != 'quick'
    out = []
    flags = ['may_certify_others', 'may_sign_data', 'may_encrypt_comms',
             'may_encrypt_storage', 'may_have_been_split',
             'may_be_used_for_auth', 'may_have_multiple_owners']
    single = ['creation_time', 'signature_expiration_time', 'exportable',
              'key_expiration_time', 'revocable', 'primary_user_id',
              'trust_depth', 'trust_amount', 'preferred_symmetric_algorithms',
              'preferred_hash_algorithms', 'preferred_compression_algorithms',
              'key_server_should_not_modify', 'preferred_key_server',
              'policy_uri', 'issuer_user_id', 'revocation_code',
              'revocation_reason', 'supports_modification_detection'] + flags
    lists = ['regular_expressions', 'revocation_keys', 'issuer_key_ids',
             'notations', 'embedded_signatures']
    kinds = ('key', 'sub', 'uid')
    for i, prop in enumerate(single + lists):
        for j, where in enumerate(['', 'h', 'u', 'hu', 'hh', 'uh']):
            if prop == 'creation_time' and not where:
                continue
            for k, kind in enumerate(kinds):
                if not thorough and (i + j + k) % 3 and \
                        prop != 'key_expiration_time':
                    continue
                out.append(('h_get', dict(prop=prop, kind=kind,
                                          where=where)))
    for i, prop in enumerate(single):
        for where in ('', 'h'):
            if prop == 'creation_time' and not where:
                continue
            for k, kind in enumerate(kinds):
                if not thorough and (i + k) % 3 and \
                        prop != 'key_expiration_time':
                    continue
                out.append(('h_set', dict(prop=prop, kind=kind,
                                          where=where)))
    for prop in ('signature_expiration_time', 'key_expiration_time'):
        for kind in kinds:
            out.append(('h_never', dict(prop=prop, kind=kind)))
    for prop in lists:
        for where, keep, new in [('', [], 1), ('h', [], 0), ('h', [0], 1),
                                 ('h', [], 1), ('hh', [0], 0), ('hh', [1], 1),
                                 ('hu', [0], 0), ('hu', [1], 0),
                                 ('u', [], 0), ('', [], 2), ('hh', [], 0)]:
            if not thorough and prop in ('revocation_keys', 'notations') and \
                    len(where) + new > 2:
                continue
            out.append(('h_list', dict(prop=prop, kind='uid', where=where,
                                       keep=keep, new=new)))
        for where in ('hh', 'hu', 'uu'):
            out.append(('h_twice', dict(prop=prop, where=where)))
    for prop, where, keep, new in [
            ('issuer_key_ids', 'hhhhhhhu', [3, 1], 2),
            ('embedded_signatures', 'hhhhh', [3, 1], 1),
            ('regular_expressions', 'hhhhhuu', [3, 6], 3),
            ('notations', 'hhhh', [3, 1], 1)]:
        out.append(('h_list', dict(prop=prop, kind='uid', where=where,
                                   keep=keep, new=new)))
    for version in (2, 3):
        out.append(('h_three', dict(version=version)))
        out.append(('h_equal', dict(version=version)))
    out.append(('h_equal', dict(version=4)))
    for version in (2, 3, 4):
        for kind in kinds:
            out.append(('h_made', dict(version=version, kind=kind)))
    for where in 'hu':
        for gap in (1, 5000):
            out.append(('h_moved', dict(where=where, gap=gap)))
    for seconds in (None, 0, -1):
        out.append(('h_expired', dict(seconds=seconds)))
    return out
