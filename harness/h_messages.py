"""Messages: which packets, in which order (RFC 4880 section 11.3)."""
import datetime
from pgp import armor
from pgp import message as msg
from pgp import shortcuts
from pgp import utils
from pgp.packets import packets as pk
from hlib import fs
from hlib.util import be, long_octets, long_text, new_frame, old_frame
from hlib.keys import subpacket, sig4_body, sig3_body

BAD = 'no message'
ZONE = 5 * 3600 + 1800


def moment(seconds):
    """As the local time a datetime has here."""
    return datetime.datetime(1970, 1, 1) + datetime.timedelta(
        seconds=seconds + ZONE)


def ascii_text(sx, name, n):
    raw = sx.bytes(name, n)
    for b in bytearray(raw):
        sx.assume(b < 128)
    return raw


def literal_body(kind, name, time4, data):
    return kind + be(len(name), 1) + name + time4 + data


def written(m, header=None):
    out = m.to_packets(header) if header is not None else m.to_packets()
    return b''.join([bytes(bytes(p)) for p in out])


def h_literal(sx, kind, n, names, when):
    """A literal message made from values, written, and read again."""
    name = ascii_text(sx, 'name', names)
    time = sx.int('time', *when)
    if kind == 'b':
        data = sx.bytes('data', n) if n < 1000 else \
            long_octets(sx, 'data', n)
        m = msg.BinaryMessage(data, name.decode('ascii'), moment(time))
    else:
        data = ascii_text(sx, 'data', min(n, 7)) + b'z' * (n - min(n, 7))
        if n >= 1000:
            # the ends of lines stay as they are
            data = long_text(sx, 'data', n, 1)
        m = msg.TextMessage(data.decode('ascii'), name.decode('ascii'),
                            moment(time))
        m.data_format = kind.encode('ascii')
    body = literal_body(kind.encode('ascii'), name, be(time, 4), data)
    sx.check(sx.eq(written(m), new_frame(11, body)), 'octets')
    sx.check(sx.eq(written(m, 1), new_frame(11, body)), 'new header')
    got = shortcuts.read_message(bytearray(new_frame(11, body)))
    text = kind in 'ut'
    sx.check(isinstance(got, msg.TextMessage) == text, 'class')
    sx.check(isinstance(got, msg.LiteralMessage), 'literal')
    sx.check(got.data_format == kind.encode('ascii'), 'format')
    if text:
        sx.check(sx.eq(got.data, data.decode('ascii')), 'text')
    else:
        sx.check(sx.eq(bytes(got.data), data), 'data')
    sx.check(sx.eq(got.filename, name.decode('ascii')), 'file name')
    sx.check(got.timestamp == moment(time), 'time')
    sx.check(sx.eq(written(got), new_frame(11, body)), 'written again')
    sx.reach('read')


def h_local(sx, kind, n, names):
    """What was read is written as it was, whatever its octets."""
    body = literal_body(kind.encode('ascii'), ascii_text(sx, 'name', names),
                        sx.bytes('time', 4), sx.bytes('data', n))
    for frame in (new_frame, old_frame):
        got = shortcuts.read_message(bytearray(frame(11, body)))
        sx.check(got.data_format == kind.encode('ascii'), 'format')
        sx.check(sx.eq(bytes(got.data), body[-n:] if n else b''), 'data')
        sx.check(sx.eq(written(got), new_frame(11, body)), 'written again')
    sx.reach('read')


# -- kinds of packets, by letter --------------------------------------------

def one(sx, letter, i):
    """(tag, body) with contents of its own."""
    t = '%s%d' % (letter, i)
    if letter == 'L':
        return 11, b'b\x01x' + sx.bytes(t, 4) + sx.bytes(t + 'd', 2)
    if letter == 'C':
        return 8, b'\x00' + new_frame(
            11, b'b\x00' + sx.bytes(t, 4) + sx.bytes(t + 'd', 1))
    if letter == 'P':
        return 1, b'\x03\x80' + sx.bytes(t, 7) + b'\x01\x00\x09\x01' + \
            sx.bytes(t + 'd', 1)
    if letter == 'S':
        return 3, b'\x04\x07\x03\x08' + sx.bytes(t, 8) + b'\x60'
    if letter == 'E':
        return 9, sx.bytes(t, 5)
    if letter == 'I':
        return 18, b'\x01' + sx.bytes(t, 5)
    if letter == 'o':
        return 4, b'\x03' + sx.bytes(t, 12)
    if letter == 's':
        hashed = subpacket(16, sx.bytes(t, 8)) + subpacket(
            2, b'\x52' + sx.bytes(t + 'c', 3))
        return 2, sig4_body(0, 1, 8, hashed, b'', sx.bytes(t + 'h', 2),
                            b'\x00\x09\x01' + sx.bytes(t + 'm', 1))
    if letter == 'r':
        return 2, sig3_body(1, b'\x52' + sx.bytes(t + 'c', 3),
                            sx.bytes(t, 8), 17, 2, sx.bytes(t + 'h', 2),
                            b'\x00\x09\x01' + sx.bytes(t + 'm', 1) +
                            b'\x00\x02' + be(2, 1))
    if letter == 'm':
        return 10, b'PGP'
    if letter == 'u':
        return 13, b'user'
    if letter == 't':
        return 12, b'\x01'
    if letter == 'x':
        return 19, sx.bytes(t, 20)
    raise AssertionError(letter)


def parse(shape):
    """The tree of a sequence of letters; None if it's no message."""
    shape = shape.replace('m', '')
    tree, rest = parse_one(shape)
    if rest:
        return None
    return tree


def parse_one(shape):
    first = shape[:1]
    if first in ('L', 'C'):
        return first, shape[1:]
    if first in ('P', 'S'):
        n = 0
        while shape[n:n + 1] in ('P', 'S'):
            n += 1
        if shape[n:n + 1] not in ('E', 'I'):
            return None, 'x'
        return shape[:n + 1], shape[n + 1:]
    if first in ('E', 'I'):
        return first, shape[1:]
    if first in ('s', 'r'):
        n = 0
        while shape[n:n + 1] in ('s', 'r'):
            n += 1
        inner, rest = parse_one(shape[n:])
        if inner is None:
            return None, 'x'
        return ('signed', False, n, inner), rest
    if first == 'o':
        n = 0
        while shape[n:n + 1] == 'o':
            n += 1
        inner, rest = parse_one(shape[n:])
        if inner is None or len(rest) < n:
            return None, 'x'
        for c in rest[:n]:
            if c not in ('s', 'r'):
                return None, 'x'
        return ('signed', True, n, inner), rest[n:]
    return None, 'x'


def field(body, letter):
    """(type, public key algorithm, hash algorithm, key ID) of a signature"""
    if letter == 's':
        return body[1:2], body[2:3], body[3:4], body[8:16]
    return body[2:3], body[15:16], body[16:17], body[7:15]


def expected(parts):
    """The packets a message that was read is written as: one-pass signature
    packets say what the signatures say, the last one that it's the last."""
    parts = [p for p in parts if p[0] != 'm']
    return rewrite(parts)[0]


def rewrite(parts):
    letter = parts[0][0]
    if letter in ('L', 'C', 'E', 'I'):
        return [parts[0][1:]], parts[1:]
    if letter in ('P', 'S'):
        out, rest = rewrite(parts[1:])
        return [parts[0][1:]] + out, rest
    n = 0
    if letter in ('s', 'r'):
        while parts[n][0] in ('s', 'r'):
            n += 1
        out, rest = rewrite(parts[n:])
        return [p[1:] for p in parts[:n]] + out, rest
    while parts[n][0] == 'o':
        n += 1
    out, rest = rewrite(parts[n:])
    sigs = rest[:n]
    head = []
    for i in range(n):
        type_, alg, hash_, id_ = field(sigs[n - 1 - i][2], sigs[n - 1 - i][0])
        head.append((4, b'\x03' + type_ + hash_ + alg + id_ +
                     be(1 if i == n - 1 else 0, 1)))
    return head + out + [p[1:] for p in sigs], rest[n:]


def check_tree(sx, got, tree, parts):
    """The object is of the shape the packets have; parts are consumed."""
    if isinstance(tree, tuple):
        sx.check(isinstance(got, msg.SignedMessageWrapper), 'signed')
        sx.check(bool(got.one_pass) == tree[1], 'one pass')
        sx.check(len(got.signatures) == tree[2], 'signatures')
        if tree[1]:
            rest = check_tree(sx, got.get_message(), tree[3],
                              parts[tree[2]:])
            mine, rest = rest[:tree[2]], rest[tree[2]:]
        else:
            mine = parts[:tree[2]]
            rest = check_tree(sx, got.get_message(), tree[3],
                              parts[tree[2]:])
        for sig, (letter, tag, body) in zip(got.signatures, mine):
            type_, alg, hash_, id_ = field(body, letter)
            sx.check(sig.signature_type == bytearray(type_)[0], 'type')
            sx.check(sig.public_key_algorithm == bytearray(alg)[0], 'alg')
            sx.check(sig.hash_algorithm == bytearray(hash_)[0], 'hash')
            sx.check(sx.eq(sig.issuer_key_ids[0], hexed(id_)), 'issuer')
            sx.check(sig.parent is got.get_message(), 'what is signed')
        return rest
    body = parts[len(tree) - 1][2]
    if tree == 'L':
        sx.check(isinstance(got, msg.BinaryMessage), 'literal')
        sx.check(sx.eq(bytes(got.data), body[-2:]), 'data')
    elif tree == 'C':
        sx.check(isinstance(got, msg.CompressedMessageWrapper), 'compressed')
        inner = got.get_message()
        sx.check(isinstance(inner, msg.BinaryMessage), 'inside')
        sx.check(sx.eq(bytes(inner.data), body[-1:]), 'data inside')
    else:
        sx.check(isinstance(got, msg.EncryptedMessageWrapper), 'encrypted')
        sx.check(sx.eq(bytes(got.message_data_obj.data), body[-5:]), 'data')
        sx.check(bool(got.message_data_obj.integrity_protected) ==
                 (tree[-1] == 'I'), 'protected')
        keys = got.session_keys
        if len(tree) == 1:
            sx.check(len(keys) == 1 and
                     isinstance(keys[0], msg.DefaultSessionKey), 'default')
        else:
            sx.check(len(keys) == len(tree) - 1, 'session keys')
            for k, c, p in zip(keys, tree, parts):
                if c == 'P':
                    sx.check(isinstance(k, msg.PublicKeySessionKey), 'pk')
                    sx.check(sx.eq(k.key_id, hexed(p[2][1:9])), 'key ID')
                else:
                    sx.check(isinstance(k, msg.SymmetricSessionKey), 'sk')
    return parts[len(tree):]


def hexed(octets):
    return utils.bytearray_to_hex(bytearray(octets))


def sequence(sx, shape, frame):
    parts = []
    for i, c in enumerate(shape):
        tag, body = one(sx, c, i)
        parts.append((c, tag, body))
    data = b''.join([frame(tag, body) for c, tag, body in parts])
    return parts, data


def judge(sx, shape, parts, read):
    tree = parse(shape)
    try:
        got = read()
    except Exception:
        sx.check(tree is None, 'a message refused')
        sx.reach('refused')
        return
    sx.check(tree is not None, 'accepted: no message')
    rest = check_tree(sx, got, tree, [p for p in parts if p[0] != 'm'])
    sx.check(not rest, 'all of it')
    want = expected(parts)
    packets = got.to_packets()
    sx.check([p.type for p in packets] == [w[0] for w in want], 'order')
    for p, (tag, body) in zip(packets, want):
        sx.check(sx.eq(bytes(p.content), body), 'packet %d' % tag)
    sx.reach('read')


def h_shape(sx, shape, old):
    """One sequence of packets."""
    frame = new_frame
    if old and not set('Iux') & set(shape):
        frame = old_frame
    parts, data = sequence(sx, shape, frame)
    judge(sx, shape, parts,
          lambda: shortcuts.read_message(bytearray(data)))


def h_any(sx, start, n, letters):
    """Every sequence of n packets of these kinds."""
    shape = start
    for i in range(n):
        shape += sx.choose('kind%d' % i, list(letters))
    parts, data = sequence(sx, shape, new_frame)
    judge(sx, shape, parts,
          lambda: msg.open_pgp_message_from_packets(
              [pk.packet_from_packet_data(bytearray(new_frame(t, b)), 0)[1]
               for c, t, b in parts]))


def h_inside(sx, start, n, letters):
    """... in a compressed packet."""
    shape = start
    for i in range(n):
        shape += sx.choose('kind%d' % i, list(letters))
    parts, data = sequence(sx, shape, new_frame)
    outer = shortcuts.read_message(bytearray(new_frame(8, b'\x00' + data)))
    judge(sx, shape, parts, outer.get_message)


def h_made(sx, one_pass, kinds, inner):
    """A signed message put together from signatures and a message, written
    in old and in new packets."""
    m = msg.BinaryMessage(sx.bytes('data', 3), 'x', moment(1400000000))
    body = literal_body(b'b', b'x', be(1400000000, 4), bytes(m.data))
    content = [(11, body)]
    if inner == 'C':
        m = m.compress(0, 6)
        content = [(8, b'\x00' + new_frame(11, body))]
    parts = []
    sigs = []
    for i, c in enumerate(kinds):
        tag, b = one(sx, c, i)
        parts.append((c, tag, b))
        sigs.append(msg.parse_signature_from_packet(
            pk.packet_from_packet_data(bytearray(new_frame(2, b)), 0)[1], m))
    made = msg.SignedMessageWrapper(sigs, m, one_pass)
    want = []
    if one_pass:
        for i, (c, tag, b) in enumerate(reversed(parts)):
            type_, alg, hash_, id_ = field(b, c)
            want.append((4, b'\x03' + type_ + hash_ + alg + id_ +
                         be(1 if i == len(parts) - 1 else 0, 1)))
        want += content + [p[1:] for p in parts]
    else:
        want = [p[1:] for p in parts] + content
    for header, frame in ((1, new_frame), (0, old_frame)):
        got = written(made, header)
        sx.check(sx.eq(got, b''.join([frame(t, b) for t, b in want])),
                 'octets %d' % header)
    sx.check([p.type for p in made.to_packets()] == [t for t, b in want],
             'types')
    again = shortcuts.read_message(bytearray(written(made, 1)))
    sx.check(bool(again.one_pass) == one_pass, 'one pass')
    sx.check(len(again.signatures) == len(kinds), 'signatures')
    sx.reach('made')


def h_armored(sx, shape):
    """The same in armor, as text or as bytes, named so or not."""
    parts, data = sequence(sx, shape, new_frame)
    text = str(armor.ASCIIArmor(armor.PGP_MESSAGE, data))
    raw = text.encode('ascii')
    for read in (lambda: shortcuts.read_message(text, True),
                 lambda: shortcuts.read_message(text),
                 lambda: shortcuts.read_message(raw)):
        judge(sx, shape, parts, read)


def h_on_disk(sx, shape, armored, how):
    """The same in a file."""
    disk = fs.make(sx)
    parts, data = sequence(sx, shape, new_frame)
    if armored:
        data = str(armor.ASCIIArmor(armor.PGP_MESSAGE, data)).encode('ascii')
    disk.put('message', data)
    name = disk.path('message')
    judge(sx, shape, parts, lambda: shortcuts.read_message_file(name, how))
    sx.check(sx.eq(disk.get('message'), data), 'changed by reading')
    disk.close()


# --- cases ---
def cases(tier):
    out = []
    thorough = tier != 'quick'
    for kind in 'but':
        for n, names in [(0, 0), (1, 8), (7, 1), (160, 20)] + \
                ([(183, 3), (186, 0), (187, 0), (300, 100)]
                 if thorough else [(186, 0)]) + \
                [(5000, 3), (9000, 255), (70000, 7)]:
            when = [[0, 2**31 - 1], [2**31, 2**32 - 1]][n % 2]
            out.append(('h_literal', dict(kind=kind, n=n, names=names,
                                          when=when)))
    for kind in 'bl1':
        for n, names in [(0, 0), (3, 2), (40, 8)]:
            out.append(('h_local', dict(kind=kind, n=n, names=names)))
    for shape in ['osL'[:0] + s for s in (
            'L', 'C', 'E', 'I', 'PE', 'PI', 'SI', 'PPSI', 'SPE', 'sL', 'srL',
            'oLs', 'ooLsr', 'ooLrs', 'oooLrss', 'oCs', 'sC', 'sPI', 'oPSIs',
            'ooEsr', 'soLs', 'osLs', 'oosLsr', 'ooLs', 'oLss', 'oL', 'oLsL',
            'LL', 'LC', 'CL', 'EE', 'PEL', 'IL', 'P', 'PS', 'PL', 'PsI',
            's', 'ss', 'o', 'os', 'Ls', 'Los', 'sLs', 'mL', 'Lm', 'PmI',
            'omLms', 'mPIm', 'm', 'u', 'uL', 'Lu', 'x', 'Lx', 'Lt', 'tL',
            'oLt', 'oLu', 'osLs', 'srPPIm', 'osrLs', 'oosLrs', 'PEs')]:
        for old in (False, True):
            out.append(('h_shape', dict(shape=shape, old=old)))
    letters = 'LCPSEIosrmut'
    for start in ('',) + tuple(letters):
        out.append(('h_any', dict(start=start, n=2 if start else 1,
                                  letters=letters)))
    for start in ('oo', 'os', 'so', 'oP', 'PS', 'oL', 'sL', 'sP', 'om', 'or'):
        out.append(('h_any', dict(start=start, n=2, letters='LCPIosru')))
    if thorough:
        for a in 'LCPSosm':
            for b in letters:
                out.append(('h_any', dict(start=a + b, n=2, letters=letters)))
    for start in ('', 'o', 's', 'P', 'L', 'm'):
        out.append(('h_inside', dict(start=start, n=2 if thorough else 1,
                                     letters='LCPIosmu')))
    out.append(('h_inside', dict(start='oL', n=1, letters='LsrPm')))
    for kinds in ('s', 'r', 'sr', 'rs', 'ss', 'rrs', 'srr') + \
            (('srsr', 'sssss') if thorough else ()):
        for one_pass in (True, False):
            for inner in 'LC':
                out.append(('h_made', dict(kinds=kinds, one_pass=one_pass,
                                           inner=inner)))
    # many of them
    for kinds in ('srsrsr', 's' * 12, 'rsss' * 3):
        for one_pass in (True, False):
            out.append(('h_made', dict(kinds=kinds, one_pass=one_pass,
                                       inner='L')))
    for shape in ('o' * 6 + 'L' + 's' * 6, 'o' * 10 + 'C' + 'rs' * 5,
                  'o' * 6 + 'L' + 's' * 5, 'o' * 5 + 'L' + 's' * 6,
                  's' * 9 + 'L', 's' * 10, 'PPSSPPSPI', 'P' * 20 + 'E',
                  'P' * 20, 'S' * 12 + 'I', 'm' * 9 + 'L' + 'm' * 9,
                  'so' * 4 + 'L' + 's' * 4):
        out.append(('h_shape', dict(shape=shape, old=len(shape) % 2 == 0)))
    for shape in ('L', 'C', 'PI', 'oLs', 'LL', 'oooLsss'):
        out.append(('h_armored', dict(shape=shape)))
    for shape in ('L', 'C', 'PI', 'oLs', 'LL', 'Ls'):
        for armored, how in [(False, False), (True, True), (True, False)]:
            out.append(('h_on_disk', dict(shape=shape, armored=armored,
                                          how=how)))
    return out
