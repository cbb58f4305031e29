"""User IDs: name, comment and address."""
from pgp import transferrable_keys as tk
from pgp.packets import packets as pk
from pgp.packets.parsers import parse_binary_packet_data
from hlib import real
from hlib.keys import sig4_body, subpacket
from hlib.util import be, mpi, new_frame

KEEP = []
# Classes of characters, none of them special in an address
LETTERS = {'a': (0x61, 0x7a), 'A': (0x41, 0x5a), '0': (0x30, 0x39),
           'l': (0xc0, 0x17f), 'g': (0x391, 0x3a1), 'k': (0x4e00, 0x4e7f)}
SPECIAL = '(),:;<>@[]\\"'


def chars(sx, name, shape):
    """Text whose characters are of the classes of a shape."""
    out = []
    for i, c in enumerate(shape):
        if c in LETTERS:
            lo, hi = LETTERS[c]
            out.append(chr(sx.int('%s%d' % (name, i), lo, hi)))
        elif c == '!':
            out.append(sx.choose('%s%d' % (name, i), list(SPECIAL)))
        else:
            out.append(c)
    return ''.join(out)


def user_id(name, comment, email, quoted=False):
    parts = []
    if name:
        if quoted:
            q = ''.join(['\\' + c if c in '\\"' else c for c in name])
            parts.append('"' + q + '"')
        else:
            parts.append(name)
    if comment:
        parts.append('(' + comment + ')')
    if email:
        parts.append('<' + email + '>' if parts else email)
    return ' '.join(parts)


def parts(sx, name, comment, email):
    n = chars(sx, 'name', name)
    c = chars(sx, 'comment', comment)
    u, _, d = email.partition('@')
    e = chars(sx, 'user', u) + '@' + chars(sx, 'domain', d) if email else ''
    return n, c, e


def made(text):
    primary = tk.TransferablePublicKey.from_packets(
        [real.packet(6, real.public_body(1, 'rsa'))])
    KEEP.append(primary)
    return tk.UserID.from_packet(primary, real.packet(
        13, text.encode('utf8')))


def check(sx, uid, n, c, e, what):
    sx.check(sx.eq(uid.user_name, n), what + ' name')
    sx.check(sx.eq(uid.user_comment, c), what + ' comment')
    sx.check(sx.eq(uid.user_email, e), what + ' address')


def h_read(sx, name, comment, email, angle, quoted=False):
    """The parts of a user ID."""
    del KEEP[:]
    n, c, e = parts(sx, name, comment, email)
    text = user_id(n, c, e, quoted)
    if angle and not name and not comment:
        text = '<' + e + '>'
    uid = made(text)
    sx.check(sx.eq(uid.user_id, text), 'text')
    check(sx, uid, n, c, e, 'read')
    sx.check(sx.eq(bytes(uid.to_packet().content), text.encode('utf8')),
             'octets')
    # the same in a signature that says who made it
    raw = text.encode('utf8')
    body = sig4_body(0x10, 17, 2, subpacket(28, raw), b'', b'ab',
                     mpi(5) + mpi(6))
    sig = tk.KeySignature.from_packet(
        pk.packet_from_packet_data(bytearray(new_frame(2, body)), 0)[1], uid)
    sx.check(sx.eq(sig.issuer_user_name, n), 'issuer name')
    sx.check(sx.eq(sig.issuer_user_comment, c), 'issuer comment')
    sx.check(sx.eq(sig.issuer_user_email, e), 'issuer address')
    sx.reach('read')


def h_set(sx, name, comment, email, which, new):
    """A part that is set is that; the others stay."""
    del KEEP[:]
    n, c, e = parts(sx, name, comment, email)
    uid = made(user_id(n, c, e))
    if which == 'email':
        u, _, d = new.partition('@')
        v = chars(sx, 'new user', u) + '@' + chars(sx, 'new domain', d) \
            if new else ''
    else:
        v = chars(sx, 'new', new)
    quoted = which == 'name' and '!' in new
    if which == 'name':
        n = v
        uid.user_name = v
    elif which == 'comment':
        c = v
        uid.user_comment = v
    else:
        e = v
        uid.user_email = v
    check(sx, uid, n, c, e, 'set')
    want = user_id(n, c, e, quoted)
    if not quoted:
        got = uid.user_id
        if not n and not c:
            sx.check(sx.either(sx.eq(got, e), sx.eq(got, '<' + e + '>')),
                     'text')
        else:
            sx.check(sx.eq(got, want), 'text')
    again = tk.UserID.from_packet(KEEP[0], list(parse_binary_packet_data(
        bytes(uid.to_packet())))[0])
    check(sx, again, n, c, e, 'written')
    sx.reach('set')


def h_again(sx, shapes):
    """A user ID whose text is replaced has the parts of the new text."""
    del KEEP[:]
    uid = None
    for i, shape in enumerate(shapes):
        name, comment, email = shape
        n = chars(sx, 'name%d ' % i, name)
        c = chars(sx, 'comment%d ' % i, comment)
        e = chars(sx, 'user%d ' % i, email) + '@x.org' if email else ''
        text = user_id(n, c, e)
        if uid is None:
            uid = made(text)
        else:
            uid.user_id = text
        check(sx, uid, n, c, e, 'again')
        sx.check(sx.eq(bytes(uid.to_packet().content), text.encode('utf8')),
                 'octets')
    sx.reach('again')


def h_any(sx, shape):
    """Any text has parts."""
    del KEEP[:]
    text = ''.join([sx.choose('c%d' % i, list('a ()<>@."\\,:;['))
                    if c == '?' else c for i, c in enumerate(shape)])
    uid = made(text)
    for v in (uid.user_name, uid.user_comment, uid.user_email):
        sx.check(isinstance(v, str), 'text')
    sx.check(uid.user_id == text, 'kept')
    sx.reach('any')


# --- cases ---
def cases(tier):
    thorough = tier != 'quick'
    out = []
    names = ['', 'Aa', 'a A', 'A. aa', 'l', 'k a', 'aA0']
    comments = ['', 'a', 'a 0', 'l', 'A.a']
    emails = ['', 'a@a', 'a0@a.a', 'A.a@a0.a']
    if thorough:
        names += ['a g k', 'Aaa Aaaa', 'l l l']
        comments += ['kk', 'a b c', 'aaaa']
        emails += ['a-a+0@a.a.aa', 'aaaa@aaaa.aa']
    for n in names:
        for c in comments:
            for e in emails:
                if not n and not e:
                    continue
                for angle in (False, True):
                    if angle and (n or c):
                        continue
                    out.append(('h_read', dict(name=n, comment=c, email=e,
                                               angle=angle)))
    out.append(('h_read', dict(name='Aaaaaaaaa Aaaaaaaaaaaa A. Aaaaaaaaa',
                               comment='aaaaaaaaa aaaa',
                               email='aaaaaaaa.aa@aaaaaaa.aaaaa.aa',
                               angle=False)))
    out.append(('h_read', dict(name='', comment='',
                               email='aaaaaaaa.aa@aaaaaaa.aaaaa.aa',
                               angle=True)))
    for n in ('a!', '!a', 'a!a', '! !', ' !', 'a  !', '!  '):
        for c in ('', 'a'):
            out.append(('h_read', dict(name=n, comment=c, email='a@a',
                                       angle=False, quoted=True)))
    for n in ('', 'Aa', 'a l'):
        for c in ('', 'a', 'a a'):
            for e in ('', 'a@a.a'):
                if not n and not e:
                    continue
                for which, news in (('name', ['', 'a', 'Aa A.', 'l', 'a!a', ' !']),
                                    ('comment', ['', 'a', 'l a']),
                                    ('email', ['', 'a@a', 'a.a@a.a'])):
                    for v in news:
                        left = dict(name=n, comment=c, email=e)
                        left[which] = v
                        if not left['name'] and not left['email']:
                            continue
                        out.append(('h_set', dict(name=n, comment=c, email=e,
                                                  which=which, new=v)))
    for shapes in [('Aa', 'a', 'a'), ('Aa', 'a', 'a')], \
            [('Aa', 'a', 'a'), ('', '', 'a'), ('Aa', '', 'a')], \
            [('Aa', '', ''), ('l', 'a', ''), ('a', 'l', 'A')]:
        out.append(('h_again', dict(shapes=shapes)))
    for shape in ['', '?', '??', 'a?a', 'a ?', '?a@b', 'a <?>', 'a ?b@c>']:
        out.append(('h_any', dict(shape=shape)))
    if thorough:
        for shape in ['???', 'a (?) <?@b>', 'a ?b? <c@d>']:
            out.append(('h_any', dict(shape=shape)))
    return out
