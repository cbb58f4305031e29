"""What keys, user IDs and subkeys say by their own signatures."""
import datetime

from pgp import transferrable_keys as tk
from pgp.packets import packets as pk
from hlib import real
from hlib.keys import sig3_body, sig4_body, subpacket
from hlib.sigitems import KEY_MADE, MADE, given, item, plain, same_value, when
from hlib.util import be, mpi, new_frame

KEEP = []
SELF = {'key': (0x1f,), 'sub': (0x18,), 'uid': (0x10, 0x11, 0x12, 0x13),
        'attr': (0x10, 0x11, 0x12, 0x13)}
GONE = {'key': 0x20, 'sub': 0x28, 'uid': 0x30, 'attr': 0x30}
REVOKED_BY = ('revocation_code', 'revocation_reason')
NOW = MADE + 50000


def owner(kind, version=4, secret=False):
    """A part of a key with everything in it, and the key IDs."""
    tag = 5 if secret else 6
    body = real.secret_body if secret else real.public_body
    packets = [real.packet(tag, body(1, 'rsa', KEY_MADE, version))]
    packets.append(real.packet(13, b'abc'))
    packets.append(real.packet(17, b'\x16\x01\x10\x00\x01\x01' +
                               bytes(bytearray(17))))
    if version == 4:
        packets.append(real.packet(7 if secret else 14,
                                   body(16, 'elg', KEY_MADE)))
        packets.append(real.packet(2, sig4_body(
            0x18, 17, 2, subpacket(2, be(MADE, 4)), b'', b'ab',
            mpi(5) + mpi(6))))
    cls = tk.TransferableSecretKey if secret else tk.TransferablePublicKey
    key = cls.from_packets(packets)
    KEEP.append(key)
    ids = {'p': key.key_id, 'x': '0123456789ABCDEF'}
    if version == 4:
        ids['s'] = key.subkeys[0].key_id
        key.subkeys[0].signatures = []
    part = {'key': key, 'uid': key.user_ids[0],
            'attr': key.user_attributes[0]}
    if version == 4:
        part['sub'] = key.subkeys[0]
    return part[kind], ids


def octets(hex_):
    return bytes(bytearray([int(hex_[i:i + 2], 16)
                            for i in range(0, len(hex_), 2)]))


def sig_type(sx, kind, letter, i):
    """S: that of self-signatures, R: of revocations, O: another."""
    if letter == 'R':
        return GONE[kind]
    if letter == 'S':
        return sx.int('type%d' % i, min(SELF[kind]), max(SELF[kind]))
    return sx.choose('type%d' % i, [t for t in (
        0x00, 0x10, 0x13, 0x18, 0x19, 0x1f, 0x40, 0x50)
        if t not in SELF[kind]])


def signature(part, type_, issuers, t, subs, version=4):
    if version == 3:
        body = sig3_body(type_, be(t, 4), octets(issuers[0]), 17, 2, b'ab',
                         mpi(0x1234) + mpi(0x55))
    else:
        hashed = subpacket(2, be(t, 4))
        for k in issuers:
            hashed += subpacket(16, octets(k))
        for n, d in subs:
            hashed += subpacket(n, d)
        body = sig4_body(type_, 17, 2, hashed, b'', b'ab',
                         mpi(0x1234) + mpi(0x55))
    p = pk.packet_from_packet_data(bytearray(new_frame(2, body)), 0)[1]
    return tk.KeySignature.from_packet(p, part)


def times(sx, n):
    out = []
    for i in range(n):
        t = sx.int('time%d' % i, MADE, MADE + 10000)
        for u in out:
            sx.assume(t != u)
        out.append(t)
    return out


def latest(sx, kind, prop, seq, made):
    """The index of the signature that is to be asked."""
    best = None
    want = 'R' if prop in REVOKED_BY else 'S'
    for i, (letter, issuers) in enumerate(seq):
        if letter != want or not set(issuers) & set('ps'):
            continue
        if best is None or made[i] > made[best]:
            best = i
    return best


def default(prop):
    if prop.startswith('preferred') and prop.endswith('algorithms') or \
            prop == 'revocation_keys':
        return []
    return None


def built(sx, kind, prop, seq, says, secret=False):
    part, ids = owner(kind, 4, secret)
    made = times(sx, len(seq))
    values = []
    for i, (letter, issuers) in enumerate(seq):
        subs, v = [], None
        if i in says:
            n, d, v = item(sx, prop, 'item%d' % i)
            subs = [(n, d)]
        values.append(v)
        part.signatures.append(signature(
            part, sig_type(sx, kind, letter, i), [ids[k] for k in issuers],
            made[i], subs))
    return part, made, values


def same(sx, prop, got, v):
    if prop == 'revocation_keys':
        got = [plain(prop, g) for g in got]
        if v is None or v == []:
            return got == []
        return len(got) == 1 and same_value(sx, prop, got[0], v)
    if v is None:
        return got is None
    return same_value(sx, prop, got, v)


def h_says(sx, kind, prop, seq, says, secret=False):
    """The newest signature of its own of the right type is asked."""
    del KEEP[:]
    part, made, values = built(sx, kind, prop, seq, says, secret)
    if prop == 'creation_time':
        values = [when(t) for t in made]
    best = latest(sx, kind, prop, seq, made)
    want = None if best is None else values[best]
    if want is None:
        want = default(prop)
    got = getattr(part, prop)
    if want == [] or want is None:
        sx.check(got == want, 'default')
    else:
        sx.check(same(sx, prop, got, want), 'value')
    recent = part.get_most_recent_selfsig(prop in REVOKED_BY)
    sx.check(recent is (None if best is None else part.signatures[best]),
             'signature')
    sx.reach('says' if best is not None else 'none')


def h_set(sx, kind, prop, seq, says, secret=False):
    """... and set, and no other."""
    del KEEP[:]
    part, made, _ = built(sx, kind, prop, seq, says, secret)
    best = latest(sx, kind, prop, seq, made)
    before = [bytes(s.to_packet().content) for s in part.signatures]
    _, _, v = item(sx, prop, 'new')
    w = [given(prop, v, part)] if prop == 'revocation_keys' else v
    try:
        setattr(part, prop, w)
        good = True
    except AttributeError:
        good = False
    sx.check(good == (best is not None), 'set')
    after = [bytes(s.to_packet().content) for s in part.signatures]
    sx.check(len(after) == len(before), 'signatures')
    for i, (a, b) in enumerate(zip(before, after)):
        if i != best:
            sx.check(sx.eq(a, b), 'others')
    if good:
        sx.check(same(sx, prop, getattr(part, prop), v), 'read')
        name = 'key_' + prop if prop == 'expiration_time' else prop
        sx.check(same(sx, prop, getattr(part.signatures[best], name), v),
                 'of the signature')
        sx.reach('set')
    else:
        sx.check(same(sx, prop, getattr(part, prop), default(prop)), 'unset')
        sx.reach('none')


def h_again(sx, kind, prop, seq, change):
    """What it says follows when its signatures change."""
    del KEEP[:]
    n = len(seq)
    part, made, values = built(sx, kind, prop, seq, range(n))
    name = prop
    for step in range(2):
        best = latest(sx, kind, prop, seq, made)
        sx.check(same(sx, prop, getattr(part, name), values[best] if
                      best is not None else default(prop)), 'value')
        gone = any(letter == 'R' for letter, by in seq if 'p' in by)
        sx.check(part.revoked is gone, 'revoked')
        if step:
            break
        _, ids = owner(kind)
        number, data, v = item(sx, prop, 'later')
        t = sx.int('later time', MADE, MADE + 10000)
        for u in made:
            sx.assume(t != u)
        if change == 'moved':
            part.signatures[0].creation_time = when(t)
            made = [t] + made[1:]
            continue
        later = signature(part, min(SELF[kind]) if seq[0][0] == 'S'
                          else GONE[kind], [ids['p']], t, [(number, data)])
        if change == 'replaced':
            part.signatures = [later] + part.signatures[1:]
            made, values = [t] + made[1:], [v] + values[1:]
            seq = [[seq[0][0], 'p']] + seq[1:]
        elif change == 'in place':
            part.signatures[0] = later
            made, values = [t] + made[1:], [v] + values[1:]
            seq = [[seq[0][0], 'p']] + seq[1:]
        elif change == 'added':
            part.signatures.append(later)
            made, values = made + [t], values + [v]
            seq = seq + [[seq[0][0], 'p']]
        else:
            del part.signatures[0]
            made, values, seq = made[1:], values[1:], seq[1:]
    sx.reach('again')


def h_mine(sx, kind, prop):
    """A list that is given to a caller is the caller's."""
    del KEEP[:]
    part, _ = owner(kind)
    got = getattr(part, prop)
    sx.check(got == [], 'default')
    got.append(sx.int('mine', 0, 255))
    other, _ = owner(kind)
    sx.check(getattr(other, prop) == [], 'of another')
    sx.check(getattr(part, prop) == [], 'of this')
    sx.reach('mine')


def overlap(a, b):
    return bool(set(a) & set(b))


def h_current(sx, kind, seq, expiry, flags):
    """Which signatures count, and whether it is revoked."""
    del KEEP[:]
    part, ids = owner(kind)
    now = sx.int('now', MADE, MADE + 200000)
    sx.clock(now)
    valid = []
    for i, (letter, issuers) in enumerate(seq):
        subs = []
        ok = True
        if i in expiry:
            s = sx.int('seconds%d' % i, 1, 90000)
            subs = [(3, be(s, 4))]
            sx.assume(now != MADE + i + s)
            ok = now < MADE + i + s
        sig = signature(part, sig_type(sx, kind, letter, i),
                        [ids[k] for k in issuers], MADE + i, subs)
        if i in flags:
            a = sx.choose('expired%d' % i, [None, False, True])
            b = sx.choose('revoked%d' % i, [None, False, True])
            sig.issuer_key_expired = a
            sig.issuer_key_revoked = b
            if a or b:
                ok = False
        part.signatures.append(sig)
        valid.append(ok)
    mine, current, gone = [], [], []
    for i, (letter, issuers) in enumerate(seq):
        if not overlap(issuers, 'ps'):
            continue
        mine.append(i)
        if not sx.either(valid[i]):
            continue
        if letter == 'R':
            gone.append(i)
        elif letter == 'S':
            revoked = False
            for j, (other, by) in enumerate(seq):
                if other == 'R' and overlap(by, issuers) and sum(
                        [1 for l, k in seq
                         if l != 'R' and overlap(k, by)]) == 1:
                    revoked = True
            if not revoked:
                current.append(i)
    for name, want in (('self_signatures', mine),
                       ('current_self_signatures', current),
                       ('revocation_signatures', gone)):
        got = getattr(part, name)
        sx.check(len(got) == len(want), name + ' how many')
        for g, i in zip(got, want):
            sx.check(g is part.signatures[i], name)
    sx.check(part.revoked is bool(gone), 'revoked')
    sx.reach('revoked' if gone else 'current' if current else 'nothing')


def h_old(sx, kind, days, seq):
    """Version 3 keys, and version 3 signatures."""
    del KEEP[:]
    if kind == 'key':
        p = real.packet(6, real.public_body(1, 'rsa', KEY_MADE, 3, days))
        part = tk.TransferablePublicKey.from_packets([p])
        KEEP.append(part)
        ids = {'p': part.key_id, 'x': '0123456789ABCDEF'}
    else:
        part, ids = owner(kind, 3)
    made = times(sx, len(seq))
    for i, (letter, issuers) in enumerate(seq):
        part.signatures.append(signature(
            part, sig_type(sx, kind, letter, i), [ids[k] for k in issuers],
            made[i], [], 3))
    mine = [i for i, (letter, k) in enumerate(seq) if 'p' in k]
    got = part.self_signatures
    sx.check(len(got) == len(mine), 'how many')
    for g, i in zip(got, mine):
        sx.check(g is part.signatures[i], 'own')
    best = latest(sx, kind, 'creation_time', seq, made)
    recent = part.get_most_recent_selfsig()
    sx.check(recent is (None if best is None else part.signatures[best]),
             'signature')
    sx.check(part.revoked is bool([i for i in mine if seq[i][0] == 'R']),
             'revoked')
    if kind == 'key':
        sx.check(sx.eq(part.creation_time, when(KEY_MADE)), 'created')
        if days:
            sx.check(part.expiration_time == when(KEY_MADE) +
                     datetime.timedelta(days=days), 'expires')
        else:
            sx.check(part.expiration_time is None, 'never')
    sx.check(part.preferred_hash_algorithms == [], 'preferences')
    sx.check(part.may_sign_data is None, 'flags')
    sx.reach('old')


# --- cases ---
def cases(tier):
    thorough = tier != 'quick'
    out = []
    flags = ['may_certify_others', 'may_sign_data', 'may_encrypt_comms',
             'may_encrypt_storage', 'may_have_been_split',
             'may_be_used_for_auth', 'may_have_multiple_owners']
    props = ['expiration_time', 'key_server_should_not_modify',
             'preferred_key_server', 'primary_user_id', 'policy_uri',
             'revocation_keys', 'preferred_symmetric_algorithms',
             'preferred_hash_algorithms', 'preferred_compression_algorithms',
             'supports_modification_detection', 'revocation_code',
             'revocation_reason'] + flags
    kinds = ['key', 'sub', 'uid', 'attr']
    seqs = [[('S', 'p')], [], [('S', 'x')],
            [('S', 'p'), ('S', 'p')], [('S', 'p'), ('S', 'x')],
            [('O', 'p'), ('S', 'p')], [('S', 'p'), ('R', 'p')],
            [('R', 'p'), ('S', 's'), ('R', 'p')],
            [('S', 'xp'), ('R', 'x'), ('R', 's')],
            [('S', 'p'), ('S', 'x'), ('S', 'p')]]
    more = [[('S', 'p')] * 3, [('O', 'p'), ('S', 's'), ('S', 'x')],
            [('S', 'p'), ('R', 'p'), ('R', 'p')], [('S', 'p')] * 4,
            [('R', 'p')] * 3]
    for i, prop in enumerate(props):
        for j, seq in enumerate(seqs + (more if thorough else [])):
            n = len(seq)
            for k, kind in enumerate(kinds):
                if not thorough and (i + j + k) % 4 and \
                        (prop != 'expiration_time' or n > 2):
                    continue
                for m, says in enumerate([range(n), range(1, n),
                                          range(n - 1)]):
                    if m and n < 2:
                        continue
                    if m and not thorough and (i + k) % 2:
                        continue
                    out.append(('h_says', dict(
                        kind=kind, prop=prop, seq=seq, says=list(says),
                        secret=kind in ('key', 'sub') and
                        (i + j) % 3 == 0)))
                out.append(('h_set', dict(
                    kind=kind, prop=prop, seq=seq,
                    says=list(range(0, n, 2)),
                    secret=kind in ('key', 'sub') and (i + j) % 3 == 1)))
    out.append(('h_says', dict(kind='uid', prop='policy_uri',
                               seq=[('S', 'p')] * 6, says=[2, 3],
                               secret=False)))
    out.append(('h_set', dict(kind='key', prop='policy_uri',
                              seq=[('S', 'p')] * 6, says=[2, 3],
                              secret=False)))
    for kind in ('uid', 'attr'):
        for seq in seqs:
            out.append(('h_says', dict(kind=kind, prop='creation_time',
                                       seq=seq, says=[])))
    for i, kind in enumerate(kinds):
        for j, change in enumerate(['moved', 'replaced', 'in place', 'added',
                                    'removed']):
            for k, seq in enumerate([[('S', 'p')], [('S', 'p'), ('S', 'p')],
                                     [('S', 'x'), ('S', 'p')],
                                     [('S', 'p'), ('R', 'x')]]):
                prop = props[(i + j + k) % 10]
                out.append(('h_again', dict(kind=kind, prop=prop, seq=seq,
                                            change=change)))
            out.append(('h_again', dict(
                kind=kind, prop='revocation_code', seq=[('R', 'p')],
                change=change)))
    for kind in kinds:
        for prop in ('revocation_keys', 'preferred_symmetric_algorithms',
                     'preferred_hash_algorithms',
                     'preferred_compression_algorithms'):
            out.append(('h_mine', dict(kind=kind, prop=prop)))
    for kind in kinds:
        for seq in [[], [('S', 'p')], [('S', 'x')], [('R', 'p')],
                    [('R', 'x')], [('S', 'p'), ('R', 'p')],
                    [('S', 'p'), ('R', 'x')], [('S', 'x'), ('R', 'x')],
                    [('S', 's')], [('S', 'p'), ('S', 'x'), ('R', 'p')],
                    [('S', 'p'), ('S', 'x'), ('R', 'x')],
                    [('S', 'p'), ('O', 's')], [('S', 'xp')],
                    [('R', 'p'), ('S', 'p'), ('R', 'p')],
                    [('S', 'p'), ('S', 'p')],
                    [('S', 'p'), ('S', 'p'), ('R', 'p')],
                    [('O', 'p'), ('S', 'p'), ('R', 'p')]]:
            n = len(seq)
            out.append(('h_current', dict(kind=kind, seq=seq,
                                          expiry=list(range(n)), flags=[])))
            out.append(('h_current', dict(kind=kind, seq=seq, expiry=[],
                                          flags=list(range(n))[:2])))
            if thorough and n > 1:
                out.append(('h_current', dict(kind=kind, seq=seq,
                                              expiry=[n - 1], flags=[0])))
    for kind in ('key', 'uid', 'attr'):
        for days in (0, 1, 400):
            for seq in [[], [('S', 'p')], [('S', 'p'), ('S', 'x')],
                        [('R', 'p'), ('S', 'p')], [('R', 'x'), ('S', 'x')],
                        [('S', 'p'), ('S', 'p')]]:
                if days and kind != 'key':
                    continue
                out.append(('h_old', dict(kind=kind, days=days, seq=seq)))
    return out
