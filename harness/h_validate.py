"""Which signatures on keys are found valid."""
import warnings

from Crypto.PublicKey import DSA, RSA
from Crypto.Signature import PKCS1_v1_5
from pgp import signature_verification as sv
from pgp import transferrable_keys as tk
from pgp import utils
from pgp.packets import packets as pk
from hlib import real
from hlib.keys import (hashed_key, hashed_trailer, hashed_user, sig3_body,
                       sig4_body, subpacket)
from hlib.util import be, mpi, new_frame

K_MADE = 1390000000
X_MADE = 1391000000
SUB_MADE = 1390500000
BASE = 1392000000
KEEP = []
SIGNERS = {'K': (1, 'rsa', K_MADE), 'X': (17, 'dsa', X_MADE),
           'Y': (1, 'rsa_b', X_MADE), 'S': (1, 'rsa_b', SUB_MADE)}
UID = b'abc'
ATTR = b'\x16\x01\x10\x00\x01\x01' + bytes(bytearray(17))


class Ring(object):
    """A database of keys."""

    def __init__(self, keys):
        self.keys = keys
        self.asked = []

    def search(self, **kw):
        self.asked.append(kw)
        return [k for k in self.keys if k.key_id == kw.get('key_id')]


def octets_of(hex_):
    return bytes(bytearray([int(hex_[i:i + 2], 16)
                            for i in range(0, len(hex_), 2)]))


def body_of(who, version=4):
    alg, name, t = SIGNERS[who]
    return real.public_body(alg, name, t, version)


def public(who, version=4):
    key = tk.TransferablePublicKey.from_packets(
        [real.packet(6, body_of(who, version))])
    KEEP.append(key)
    return key


def whole(version=4):
    """K with a user ID, an attribute and a subkey, without signatures."""
    packets = [real.packet(6, body_of('K', version)), real.packet(13, UID),
               real.packet(17, ATTR)]
    if version == 4:
        packets.append(real.packet(14, body_of('S')))
        packets.append(real.packet(2, sig4_body(
            0x18, 17, 2, subpacket(2, be(BASE, 4)), b'', b'ab',
            mpi(5) + mpi(6))))
    key = tk.TransferablePublicKey.from_packets(packets)
    KEEP.append(key)
    for s in key.subkeys:
        s.signatures = []
    return key


def part_of(key, kind):
    return {'key': lambda: key, 'uid': lambda: key.user_ids[0],
            'attr': lambda: key.user_attributes[0],
            'sub': lambda: key.subkeys[0]}[kind]()


def content(kind, version=4, kver=4):
    out = hashed_key(body_of('K', kver))
    if kind == 'uid':
        out += hashed_user(13, UID, version)
    elif kind == 'attr':
        out += hashed_user(17, ATTR, version)
    elif kind == 'sub':
        out += hashed_key(body_of('S'))
    return out


def sign(who, hash_, octets):
    alg, name, _ = SIGNERS[who]
    h = utils.get_hash_instance(hash_)
    h.update(octets)
    k = real.KEYS[name]
    if alg == 1:
        s = PKCS1_v1_5.new(RSA.construct((k['n'], k['e'], k['d']))).sign(h)
        return h.digest()[:2], [real.number(s)]
    digest = h.digest()[:20]
    key = DSA.construct((k['y'], k['g'], k['p'], k['q'], k['x']))
    return h.digest()[:2], list(key.sign(real.number(digest), 12345))


def made(who, type_, octets, t, issuers, subs=(), version=4, hash_=2,
         bad=None, alg=None):
    """A signature packet that who makes of octets at t."""
    algorithm = SIGNERS[who][0]
    hashed = b''
    if version == 4:
        hashed = subpacket(2, be(t, 4))
        for k in issuers:
            hashed += subpacket(16, octets_of(k))
        for n, d in subs:
            hashed += subpacket(n, d)
    full = octets + hashed_trailer(version, type_, be(t, 4), algorithm,
                                   hash_, hashed)
    hash2, values = sign(who, hash_, full)
    if bad == 'values':
        _, values = sign(who, hash_, full + b'x')
    elif bad == 'content':
        hash2, values = sign(who, hash_, b'x' + full)
    elif bad == 'hash2':
        hash2 = hash2[:1] + be(bytearray(hash2)[1] ^ 1, 1)
    elif bad == 'number':
        values = [values[0] + 2] + values[1:]
    mpis = b''.join([b'\x00\x00' if v == 0 else
                     be(8 * 64 if algorithm == 1 else 160, 2) +
                     be(v, 64 if algorithm == 1 else 20) for v in values])
    if version == 3:
        return sig3_body(type_, be(t, 4), octets_of(issuers[0]), algorithm,
                         hash_, hash2, mpis)
    return sig4_body(type_, alg or algorithm, hash_, hashed, b'', hash2,
                     mpis)


def attach(part, body):
    p = pk.packet_from_packet_data(bytearray(new_frame(2, body)), 0)[1]
    s = tk.KeySignature.from_packet(p, part)
    part.signatures.append(s)
    return s


def ids(key):
    x, y = public('X'), public('Y')
    return {'K': key.key_id, 'X': x.key_id, 'Y': y.key_id,
            '?': '0123456789ABCDEF'}, Ring([x, y])


def named_as(sx):
    """Class and algorithm of a revoker, sensitive or not."""
    return be(sx.choose('class', [0x80, 0xc0]), 1) + b'\x01'


def moments(sx):
    """A symbolic time of signing and of looking."""
    t = sx.int('time', K_MADE - 3000000, K_MADE + 3000000)
    now = sx.int('now', K_MADE - 3000000, K_MADE + 9000000)
    sx.clock(now)
    return t, now


def later(sx):
    """A symbolic time of looking after everything."""
    now = sx.int('now', BASE + 100000, BASE + 9000000)
    sx.clock(now)
    return now


def h_one(sx, kind, type_, who, bad=None, version=4, hash_=2, kver=4):
    """A signature is valid when it is genuine and made in its time."""
    del KEEP[:]
    t, now = moments(sx)
    key = whole(kver)
    part = part_of(key, kind)
    by, ring = ids(key)
    alg, name, born = SIGNERS[who]
    if bad == 'other':
        # said to be by another key of its algorithm
        issuer = {'K': 'Y', 'Y': 'K'}[who]
        born = SIGNERS[issuer][2]
    else:
        issuer = '?' if bad == 'unknown' else who
    s = attach(part, made(who, type_, content(kind, version, kver), t,
                          [by[issuer]], (), version, hash_, bad))
    sv.validate_signatures(key, ring)
    if bad == 'unknown':
        sx.check(s.validated is None, 'unknown')
        sx.reach('unknown')
        return
    timely = sx.all(born <= t, t <= now)
    if s.validated is True:
        sx.check(bad is None, 'genuine')
        sx.check(timely, 'timely')
        sx.check(s.issuer_key_expired is False, 'expired')
        sx.check(s.issuer_key_revoked is False, 'revoked')
        sx.reach('valid')
    else:
        sx.check(s.validated is False, 'invalid')
        if bad is None:
            sx.check(sx.no(timely), 'valid')
        sx.reach('invalid')


def h_unfit(sx, kind, type_):
    """Signatures that have no place there are not found valid."""
    del KEEP[:]
    later(sx)
    key = whole()
    part = part_of(key, kind)
    by, ring = ids(key)
    s = attach(part, made('K', type_, content(kind), BASE, [by['K']]))
    try:
        sv.validate_signatures(key, ring)
    except Exception:
        sx.reach('refused')
    sx.check(s.validated is not True, 'unfit')
    sx.reach('unfit')


def h_odd(sx, what):
    """Algorithms that are not known leave it open; wrong ones do not."""
    del KEEP[:]
    later(sx)
    key = whole()
    part = part_of(key, 'uid')
    by, ring = ids(key)
    body = made('K', 0x13, content('uid'), BASE, [by['K']])
    if what == 'hash':
        h = sx.int('hash', 0, 255)
        for known in (1, 2, 3, 8, 9, 10, 11):
            sx.assume(h != known)
        body = body[:3] + be(h, 1) + body[4:]
    else:
        body = body[:2] + be(sx.choose('algorithm', [3, 17]), 1) + body[3:]
        if bytearray(body)[2] == 17:
            body += mpi(5)
    s = attach(part, body)
    after = attach(part_of(key, 'attr'),
                   made('K', 0x13, content('attr'), BASE, [by['K']]))
    sv.validate_signatures(key, ring)
    if what == 'hash':
        sx.check(s.validated is None, 'open')
    else:
        sx.check(s.validated is False, 'invalid')
    sx.check(after.validated is True, 'the others')
    sx.reach('odd')


def h_expired(sx, who, strict):
    """A key that signed and has expired."""
    del KEEP[:]
    now = later(sx)
    key = whole()
    by, ring = ids(key)
    signer = key if who == 'K' else ring.keys[0]
    born = SIGNERS[who][2]
    s = sx.int('seconds', 0, 12000000)
    sx.assume(born + s != now)
    # validated before, it is not looked at again
    direct = attach(signer, made(
        who, 0x1f, hashed_key(body_of(who)), BASE, [by[who]],
        [(9, be(s, 4))]))
    direct.validated = True
    sig = attach(part_of(key, 'uid'), made(
        who, 0x10, content('uid'), BASE + 1, [by[who]]))
    over = sx.all(s != 0, born + s < now)
    try:
        sv.validate_signatures(key, ring, strict)
        good = True
    except Warning:
        good = False
    if not good:
        sx.check(strict, 'strict')
        sx.check(over, 'expired')
        sx.check(sig.validated is not True, 'not valid')
        sx.reach('refused')
        return
    sx.check(sig.validated is True, 'valid')
    if sig.issuer_key_expired:
        sx.check(over, 'not expired')
        sx.check(not strict, 'strict')
        sx.reach('expired')
    else:
        sx.check(sig.issuer_key_expired is False, 'false')
        sx.check(sx.no(over), 'expired')
        sx.reach('current')
    sx.check(sig.issuer_key_revoked is False, 'revoked')


def h_revoked(sx, who, by_whom, revocable, strict, named):
    """A key that signed and is revoked."""
    del KEEP[:]
    later(sx)
    key = whole()
    by, ring = ids(key)
    signer = key if who == 'K' else ring.keys[0]
    own = hashed_key(body_of(who))
    other = ring.keys[1]
    if named:
        # the fingerprint is that of the revoker, or nearly
        fp = octets_of(other.fingerprint)
        same = sx.int('same', 0, 1)
        last = sx.ite(same == 1, bytearray(fp)[-1], bytearray(fp)[-1] ^ 1)
        attach(signer, made(
            who, 0x1f, own, BASE, [by[who]],
            [(12, named_as(sx) + fp[:-1] + be(last, 1))])).validated = True
    else:
        same = 0
    t = sx.int('revoked at', BASE, BASE + 50000)
    if by_whom is not None:
        rev = attach(signer, made('Y' if by_whom == 'Y' else who, 0x20, own,
                                  t, [by[by_whom]]))
        rev.validated = True
    subs = []
    if revocable is not None:
        subs = [(7, be(revocable, 1))]
    sig = attach(part_of(key, 'uid'), made(
        who, 0x10, content('uid'), BASE + 1, [by[who]], subs))
    gone = by_whom == who and revocable != 0
    if by_whom == 'Y' and named and revocable != 0:
        gone = same == 1
    try:
        sv.validate_signatures(key, ring, strict)
        good = True
    except Warning:
        good = False
    if not good:
        sx.check(strict, 'strict')
        sx.check(gone, 'revoked')
        sx.check(sig.validated is not True, 'not valid')
        sx.reach('refused')
        return
    sx.check(sig.validated is True, 'valid')
    sx.check(sig.issuer_key_expired is False, 'expired')
    if sig.issuer_key_revoked:
        sx.check(gone, 'not revoked')
        sx.check(not strict, 'strict')
        sx.reach('revoked')
    else:
        sx.check(sig.issuer_key_revoked is False, 'false')
        sx.check(sx.no(gone) if not isinstance(gone, bool) else not gone,
                 'revoked')
        sx.reach('current')


def h_revocation(sx, by_whom, named, namer, bad):
    """Revocations of a key by itself and by those it names."""
    del KEEP[:]
    later(sx)
    key = whole()
    by, ring = ids(key)
    own = hashed_key(body_of('K'))
    fp = octets_of(ring.keys[1].fingerprint)
    same = sx.int('same', 0, 1)
    if named:
        at = 19 if named == 'last' else 5
        octet = bytearray(fp)[at]
        fp = fp[:at] + be(sx.ite(same == 1, octet, octet ^ 1), 1) + \
            fp[at + 1:]
        attach(key, made(namer, 0x1f, own, BASE, [by[namer]],
                         [(12, named_as(sx) + fp)]))
    t = sx.int('time', BASE, BASE + 50000)
    rev = attach(key, made(by_whom, 0x20, own, t, [by[by_whom]], (), 4, 2,
                           bad))
    sv.validate_signatures(key, ring)
    if by_whom == 'K':
        sx.check(rev.validated is (bad is None), 'by itself')
        sx.reach('itself')
        return
    want = False
    if bad is None and named and namer == 'K':
        want = same == 1
    if rev.validated is True:
        sx.check(want, 'revoker')
        sx.reach('valid')
    else:
        sx.check(rev.validated is False, 'invalid')
        sx.check(not want if isinstance(want, bool) else sx.no(want),
                 'revokers are heard')
        sx.reach('invalid')


def h_unsay(sx, kind, who, revocable, bad):
    """Revocations of certifications."""
    del KEEP[:]
    later(sx)
    key = whole()
    by, ring = ids(key)
    part = part_of(key, kind)
    t = sx.int('certified', BASE, BASE + 50000)
    u = sx.int('revoked', BASE, BASE + 50000)
    subs = [] if revocable is None else [(7, be(revocable, 1))]
    cert = attach(part, made(who, 0x10, content(kind), t, [by[who]], subs))
    rev = attach(part, made(who, 0x30, content(kind), u, [by[who]], (), 4, 2,
                            bad))
    sv.validate_signatures(key, ring)
    sx.check(cert.validated is True, 'certification')
    good = sx.all(t <= u, bad is None and revocable != 0)
    if rev.validated is True:
        sx.check(good, 'revocation')
        sx.reach('valid')
    else:
        sx.check(rev.validated is False, 'false')
        sx.check(sx.no(good), 'valid revocation')
        sx.reach('invalid')


def h_designated(sx, kind, which, who, named, what):
    """Revocations that say which certification they are about."""
    del KEEP[:]
    later(sx)
    key = whole()
    by, ring = ids(key)
    part = part_of(key, kind)
    hash_ = 2
    t = sx.int('certified', BASE, BASE + 50000)
    t2 = sx.int('certified again', BASE, BASE + 50000)
    u = sx.int('revoked', BASE, BASE + 50000)
    if named:
        attach(key, made('K', 0x1f, hashed_key(body_of('K')), BASE,
                         [by['K']],
                         [(12, named_as(sx) + octets_of(
                             ring.keys[1].fingerprint))]))
    bodies = [made('K', 0x10, content(kind), t, [by['K']]),
              made('K', 0x13, content(kind), t2, [by['K']]),
              made('X', 0x10, content(kind), t2, [by['X']])]
    certs = [attach(part, b) for b in bodies]
    times = [t, t2, t2]
    digests = []
    for body in bodies:
        n = bytearray(body)[4] * 256 + bytearray(body)[5]
        digests.append(sx.digest('sha1', content(kind) + hashed_trailer(
            4, bytearray(body)[1], b'', bytearray(body)[2], 2,
            body[6:6 + n])))
    digest = digests[which]
    alg = bytearray(bodies[which])[2]
    if what == 'digest':
        digest = digest[:19] + be(bytearray(digest)[19] ^ 1, 1)
        for d in digests:
            sx.assume(sx.no(sx.eq(d, digest)))
    elif what == 'algorithm':
        alg = 3
    subs = [(31, be(alg, 1) + b'\x02' + digest)]
    rev = attach(part, made(who, 0x30, content(kind), u, [by[who]], subs))
    for i, c in enumerate(certs):
        sx.check(c.revoked is (what is None and i == which), 'revoked')
    if what is None:
        sx.check(rev.target is certs[which], 'target')
    else:
        sx.check(rev.target is None, 'no target')
    sv.validate_signatures(key, ring)
    if what is not None:
        # about something else
        sx.reach('nothing')
        return
    issuer = 'X' if which == 2 else 'K'
    may = who == issuer or (who == 'Y' and named and issuer == 'K')
    want = sx.all(may, times[which] <= u)
    if rev.validated is True:
        sx.check(want, 'revocation')
        sx.reach('valid')
    else:
        sx.check(rev.validated is False, 'false')
        sx.check(sx.no(want), 'valid revocation')
        sx.reach('invalid')


def h_binding(sx, flags, back, bad):
    """Subkeys that may sign have signed the key they belong to."""
    del KEEP[:]
    later(sx)
    key = whole()
    by, ring = ids(key)
    sub = key.subkeys[0]
    t = sx.int('time', SUB_MADE - 100000, SUB_MADE + 100000)
    subs = []
    signs = False
    if flags:
        f = sx.int('flags', 0, 255)
        sx.assume(f & 0x40 == 0)
        subs.append((27, be(f, 1)))
        signs = (f & 2) == 2
    if back:
        type_ = 0x19
        who, why = 'S', None
        if back == 'X':
            who = 'X'
        elif back == 'K':
            who = 'K'
        elif back == 'type':
            type_ = 0x18
        elif back != 'good':
            why = back
        said = content('key') if back == 'short' else content('sub')
        body = made(who, type_, said, t, [sub.key_id], (), 4, 2, why)
        # long enough for a two-octet length
        subs.append((32, body))
    sig = attach(sub, made('K', 0x18, content('sub'), BASE, [by['K']], subs,
                           4, 2, bad))
    sv.validate_signatures(key, ring)
    want = bad is None
    if back is None or back == 'type':
        want = sx.all(want, sx.no(signs))
    elif back == 'good':
        want = sx.all(want, t >= SUB_MADE)
    else:
        want = False
    if sig.validated is True:
        sx.check(want, 'bound')
        sx.reach('valid')
    else:
        sx.check(sig.validated is False, 'false')
        sx.check(sx.no(want), 'not bound')
        sx.reach('invalid')


def h_whole(sx, which):
    """All signatures of a key are looked at, each for itself."""
    del KEEP[:]
    later(sx)
    key = whole()
    by, ring = ids(key)
    plan = [('key', 0x1f, 'K'), ('uid', 0x13, 'K'), ('uid', 0x10, 'X'),
            ('attr', 0x12, 'Y'), ('attr', 0x11, 'K'), ('sub', 0x18, 'K'),
            ('key', 0x1f, 'K')]
    sigs = []
    good = []
    for i, (kind, type_, who) in enumerate(plan):
        ok = sx.choose('good%d' % i, [True, False]) if i in which else True
        good.append(ok)
        sigs.append(attach(part_of(key, kind), made(
            who, type_, content(kind), BASE, [by[who]], (), 4, 2,
            None if ok else 'content')))
    known = sx.choose('known', [None, True, False])
    sigs[2].validated = known
    sv.validate_signatures(key, ring)
    for i, (s, ok) in enumerate(zip(sigs, good)):
        want = ok if i != 2 or known is None else known
        sx.check(s.validated is want, 'signature %d' % i)
    for i, kind in enumerate(['key', 'uid', 'attr', 'sub']):
        part = part_of(key, kind)
        got = part.current_self_signatures
        sx.check(len(got) == len([1 for k, _, w in plan
                                  if k == kind and w == 'K']), 'current')
    sx.reach('whole')


def h_several(sx, first, second):
    """Several issuers: each is tried that is known."""
    del KEEP[:]
    later(sx)
    key = whole()
    by, ring = ids(key)
    s = attach(part_of(key, 'uid'), made(
        'X', 0x10, content('uid'), BASE, [by[first], by[second]]))
    sv.validate_signatures(key, ring)
    if first == 'X' or (first == '?' and second == 'X'):
        sx.check(s.validated is True, 'valid')
    elif 'X' not in (first, second) and (first, second) != ('?', '?'):
        sx.check(s.validated is False, 'invalid')
    elif (first, second) == ('?', '?'):
        sx.check(s.validated is None, 'unknown')
    for asked in ring.asked:
        sx.check(asked['key_id'] in (by[first], by[second]), 'asked')
    sx.reach('several')


# --- cases ---
def cases(tier):
    thorough = tier != 'quick'
    out = []
    bads = (None, 'values', 'content', 'hash2', 'number', 'unknown')
    for kind in ('uid', 'attr'):
        for type_ in (0x10, 0x11, 0x12, 0x13):
            for who in 'KXY':
                for bad in bads:
                    if not thorough and bad and type_ != 0x13:
                        continue
                    if bad == 'number' and who == 'X' and not thorough:
                        pass
                    out.append(('h_one', dict(kind=kind, type_=type_,
                                              who=who, bad=bad)))
            for who in 'KY':
                if thorough or type_ == 0x13:
                    out.append(('h_one', dict(kind=kind, type_=type_,
                                              who=who, bad='other')))
        for who in 'KX':
            for bad in (None, 'content'):
                out.append(('h_one', dict(kind=kind, type_=0x10, who=who,
                                          bad=bad, version=3)))
    for kind, type_ in (('key', 0x1f), ('sub', 0x18), ('key', 0x20),
                        ('sub', 0x28)):
        for bad in bads:
            if type_ == 0x20 and bad is None:
                continue
            out.append(('h_one', dict(kind=kind, type_=type_, who='K',
                                      bad=bad)))
    for hash_ in (1, 3, 8, 9, 10, 11):
        for who in 'XK':
            if who == 'K' and hash_ in (9, 10):
                continue
            out.append(('h_one', dict(kind='uid', type_=0x13, who=who,
                                      hash_=hash_)))
    for version in (3, 4):
        for bad in (None, 'content'):
            out.append(('h_one', dict(kind='uid', type_=0x10, who='K',
                                      bad=bad, version=version, kver=3)))
    for kind in ('key', 'uid', 'attr', 'sub'):
        for type_ in (0x00, 0x01, 0x02, 0x19, 0x40, 0x50):
            out.append(('h_unfit', dict(kind=kind, type_=type_)))
    for what in ('hash', 'algorithm'):
        out.append(('h_odd', dict(what=what)))
    for who in 'KX':
        for strict in (False, True):
            out.append(('h_expired', dict(who=who, strict=strict)))
            for by_whom in (who, 'Y', '?', None):
                for revocable in (None, 0, 1):
                    for named in (False, True):
                        if named and by_whom != 'Y':
                            continue
                        out.append(('h_revoked', dict(
                            who=who, by_whom=by_whom, revocable=revocable,
                            strict=strict, named=named)))
    for bad in (None, 'content'):
        out.append(('h_revocation', dict(by_whom='K', named=None, namer='K',
                                         bad=bad)))
        for named in (None, 'last', 'early'):
            for namer in 'KX':
                if named == 'early':
                    continue
                out.append(('h_revocation', dict(
                    by_whom='Y', named=named, namer=namer, bad=bad)))
    for kind in ('uid', 'attr'):
        for who in 'KX':
            for revocable in (None, 0, 1):
                for bad in (None, 'content', 'values'):
                    if bad and revocable is not None and not thorough:
                        continue
                    out.append(('h_unsay', dict(kind=kind, who=who,
                                                revocable=revocable,
                                                bad=bad)))
    for kind in ('uid', 'attr'):
        for which in (0, 1, 2):
            for who in 'KXY':
                for named in (False, True):
                    if named and who != 'Y':
                        continue
                    for what in (None, 'digest', 'algorithm'):
                        if what and (who != 'K' or which):
                            continue
                        out.append(('h_designated', dict(
                            kind=kind, which=which, who=who, named=named,
                            what=what)))
    for flags in (False, True):
        for back in (None, 'good', 'X', 'K', 'type', 'short', 'values',
                     'content', 'hash2', 'number'):
            for bad in (None, 'content'):
                if bad and back not in (None, 'good'):
                    continue
                out.append(('h_binding', dict(flags=flags, back=back,
                                              bad=bad)))
    for which in ([0, 2], [1, 4], [3, 5], [5, 6]):
        out.append(('h_whole', dict(which=which)))
    for first in 'X?Y':
        for second in 'X?Y':
            out.append(('h_several', dict(first=first, second=second)))
    return out
