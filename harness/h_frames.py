"""Packet framing: RFC 4880 section 4.2."""
from pgp import utils
from pgp.packets import constants
from pgp.packets import packets as pk
from pgp.packets import parsers
from hlib.util import Stream, be, new_frame, old_frame, new_length, old_length

NEW = constants.NEW_PACKET_HEADER_TYPE
OLD = constants.OLD_PACKET_HEADER_TYPE


def header_new(octets):
    """(offset, length, partial) of a new format length, or None if the
    octets are too few."""
    first = octets[0]
    if first < 192:
        return 1, first, False
    if first < 224:
        return 2, ((first - 192) << 8) + octets[1] + 192, False
    if first < 255:
        return 1, 1 << (first & 31), True
    n = 0
    for b in octets[1:5]:
        n = n * 256 + b
    return 5, n, False


def h_write_new_length(sx):
    n = sx.int('n', 0, (1 << 32) - 1)
    allow = sx.bool('allow')
    enc, rem = utils.new_packet_length_to_bytes(n, allow)
    sx.check(rem == 0, 'nothing remains below 4 GiB')
    octets = bytearray(enc)
    off, length, partial = header_new(octets + bytearray(4))
    sx.check(off == len(octets), 'length octets are all read')
    sx.check(sx.no(partial), 'not partial')
    sx.check(length == n, 'length reads back')
    sx.reach('end')


def h_write_new_length_huge(sx):
    n = sx.int('n', 1 << 32, 1 << 35)
    allow = sx.bool('allow')
    try:
        enc, rem = utils.new_packet_length_to_bytes(n, allow)
    except ValueError:
        sx.check(sx.no(allow), 'refused only without partial lengths')
        sx.reach('refused')
        return
    sx.check(allow, 'partial only where allowed')
    octets = bytearray(enc)
    sx.check(len(octets) == 1, 'one octet')
    sx.check(sx.all(octets[0] >= 224, octets[0] < 255), 'is partial')
    sx.check(sx.eq((1 << (octets[0] & 31)) + rem, n), 'what remains')
    sx.check((octets[0] & 31) >= 9, 'first partial body of 512 or more')
    sx.reach('partial')


def h_read_new_length(sx, pad):
    raw = sx.bytes('raw', 5)
    exp = header_new(bytearray(raw))
    data = b'\xaa' * pad + raw + b'\x55'
    off, length, partial = utils.new_packet_length(bytearray(data), pad)
    sx.check(sx.eq(off, pad + exp[0]), 'offset')
    sx.check(sx.eq(length, exp[1]), 'length')
    sx.check(bool(partial) == exp[2], 'partial')
    fh = Stream(data)
    fh.seek(pad)
    length, partial = utils.new_packet_length_from_stream(fh)
    sx.check(sx.eq(fh.tell(), pad + exp[0]), 'stream offset')
    sx.check(sx.eq(length, exp[1]), 'stream length')
    sx.check(bool(partial) == exp[2], 'stream partial')
    sx.reach('end')


def h_write_old_length(sx):
    n = sx.int('n', 0, (1 << 32) - 1)
    t, enc = utils.old_packet_length_to_bytes(n)
    enc = bytearray(enc)
    sx.check(t in (0, 1, 2), 'definite length type')
    sx.check(len(enc) == (1, 2, 4)[t], 'octets of the length type')
    v = 0
    for b in enc:
        v = v * 256 + b
    sx.check(sx.eq(v, n), 'length reads back')
    sx.reach('end')


def h_read_old_length(sx, pad):
    raw = sx.bytes('raw', 5)
    rest = sx.bytes('rest', 3)
    data = b'\xaa' * pad + raw + rest
    t = bytearray(raw)[0] & 3
    if t == 3:
        off, n = 1, 4 + 3
    else:
        off = 1 + (1 << t)
        n = 0
        for b in bytearray(raw)[1:off]:
            n = n * 256 + b
    o, length = utils.old_packet_length(bytearray(data), pad)
    sx.check(sx.eq(o, pad + off), 'offset')
    sx.check(sx.eq(length, n), 'length')
    sx.reach('end')


def h_write_packet(sx, fmt, n, tags):
    """bytes(packet) is the header RFC 4880 asks for and the body."""
    tag = sx.int('tag', tags[0], tags[1])
    k = min(n, 4)
    body = sx.bytes('head', k) + bytes(bytearray(n - k))
    p = pk.Packet(NEW if fmt == 'new' else OLD, tag, bytearray(body))
    out = bytes(p)
    # the old format has no room for types above 15
    exp = (new_frame if fmt == 'new' or tags[0] > 15 else old_frame)(tag, body)
    sx.check(sx.eq(out, exp), 'framing')
    sx.reach('end')


def private_tag(sx, fmt):
    if fmt == 'new':
        return sx.choose('tag', [0, 15, 20, 39, 60, 62])
    return sx.choose('tag', [0, 15])


def h_packet_roundtrip(sx, fmt, n):
    tag = private_tag(sx, fmt)
    k = min(n, 6)
    body = sx.bytes('head', k) + bytes(bytearray(n - k))
    p = pk.Packet(NEW if fmt == 'new' else OLD, tag, bytearray(body))
    out = bytes(p)
    junk = sx.bytes('junk', 2)
    off, q = pk.packet_from_packet_data(bytearray(junk + out + junk), 2)
    sx.check(off == 2 + len(out), 'consumed exactly the packet')
    sx.check(q.type == tag, 'tag')
    sx.check(q.header_format == p.header_format, 'format')
    sx.check(sx.eq(bytes(q.content), body), 'body')
    sx.check(sx.eq(bytes(q), out), 'same octets again')
    fh = Stream(junk + out + junk)
    fh.seek(2)
    r = pk.packet_from_packet_stream(fh)
    sx.check(fh.tell() == 2 + len(out), 'stream consumed the packet')
    sx.check(r.type == tag, 'stream tag')
    sx.check(sx.eq(bytes(r.content), body), 'stream body')
    sx.reach('end')


def framed(sx, name, tag, powers, n, style):
    """A packet of partial bodies of 2**p octets each and a last body of n
    octets, its length in the given style."""
    body = b''
    out = b'' if style.startswith('old') else be(0xc0 + tag, 1)
    for i, p in enumerate(powers):
        part = sx.bytes('%s.part%d' % (name, i), 1 << p)
        out += be(224 + p, 1) + part
        body += part
    last = sx.bytes(name + '.last', n)
    if style == 'one':
        out += be(n, 1)
    elif style == 'two':
        out += be(192 + ((n - 192) >> 8), 1) + be((n - 192) & 255, 1)
    elif style == 'five':
        out += b'\xff' + be(n, 4)
    elif style == 'old1':
        out += be(0x80 + (tag << 2), 1) + be(n, 1)
    elif style == 'old2':
        out += be(0x81 + (tag << 2), 1) + be(n, 2)
    elif style == 'old4':
        out += be(0x82 + (tag << 2), 1) + be(n, 4)
    elif style == 'oldi':
        out += be(0x83 + (tag << 2), 1)
    return out + last, body + last


def h_read_packets(sx, specs):
    """Every framing of a sequence of packets is read to the same bodies, by
    the parser of octets and by the parser of streams."""
    data = b''
    exp = []
    for i, (tag, powers, n, style) in enumerate(specs):
        d, body = framed(sx, 'p%d' % i, tag, powers, n, style)
        data += d
        exp.append((tag, style.startswith('old'), body))
    for how, got in (
            ('octets', list(parsers.parse_binary_packet_data(
                bytearray(data)))),
            ('immutable octets', list(parsers.parse_binary_packet_data(
                bytes(data)))),
            ('stream', list(parsers.parse_binary_packet_stream(
                Stream(data))))):
        sx.check(len(got) == len(exp), how + ': every packet, once')
        for g, (tag, old, body) in zip(got, exp):
            sx.check(g.type == tag, how + ': tag')
            sx.check(g.header_format == (OLD if old else NEW),
                     how + ': format')
            sx.check(sx.eq(bytes(g.content), body), how + ': body')
    sx.reach('end')


def h_any_header(sx, fmt, n):
    """Any header octets in front of n octets: both parsers agree."""
    tag = private_tag(sx, fmt)
    head = sx.bytes('head', 5)
    if fmt == 'new':
        octets = bytearray(head)
        # one packet: the last body is the only one
        off, length, partial = header_new(octets)
        sx.assume(not partial)
        sx.assume(length <= n)
        first = be(0xc0 + tag, 1)
        start = off
    else:
        t = sx.int('t', 0, 2)
        first = be(0x80 + (tag << 2) + t, 1)
        octets = bytearray(head)
        if t == 0:
            start, length = 1, octets[0]
        elif t == 1:
            start, length = 2, octets[0] * 256 + octets[1]
        else:
            start = 4
            length = ((octets[0] * 256 + octets[1]) * 256 +
                      octets[2]) * 256 + octets[3]
        sx.assume(length <= n)
    length = sx.concrete(length)
    rest = head[start:] + sx.bytes('rest', n)
    data = first + head[:start] + rest
    off, p = pk.packet_from_packet_data(bytearray(data))
    sx.check(off == 1 + start + length, 'offset')
    sx.check(p.type == tag, 'tag')
    sx.check(sx.eq(bytes(p.content), rest[:length]), 'body')
    fh = Stream(data)
    q = pk.packet_from_packet_stream(fh)
    sx.check(fh.tell() == 1 + start + length, 'stream offset')
    sx.check(sx.eq(bytes(q.content), rest[:length]), 'stream body')
    sx.reach('end')


# --- cases ---
def cases(tier):
    out = [('h_write_new_length', {}), ('h_write_new_length_huge', {}),
           ('h_read_new_length', dict(pad=0)),
           ('h_read_new_length', dict(pad=3)),
           ('h_write_old_length', {}),
           ('h_read_old_length', dict(pad=0)),
           ('h_read_old_length', dict(pad=2))]
    sizes = [0, 1, 2, 5, 191, 192, 193, 255, 256, 257, 447, 448, 8383, 8384,
             65535, 65536]
    if tier != 'quick':
        sizes += list(range(6, 40)) + [300, 511, 512, 513, 703, 704, 1024,
                                       1215, 4096, 8191, 8192, 8385, 16384,
                                       65537, 100000, (1 << 24) - 1, 1 << 24]
    for n in sizes:
        out.append(('h_write_packet', dict(fmt='new', n=n, tags=[0, 63])))
        out.append(('h_write_packet', dict(fmt='old', n=n, tags=[0, 15])))
        out.append(('h_write_packet', dict(fmt='old', n=n, tags=[16, 63])))
    for n in [x for x in sizes if x < 20000]:
        out.append(('h_packet_roundtrip', dict(fmt='new', n=n)))
        out.append(('h_packet_roundtrip', dict(fmt='old', n=n)))
    for n in (0, 3, 8):
        out.append(('h_any_header', dict(fmt='new', n=n)))
        out.append(('h_any_header', dict(fmt='old', n=n)))
    seqs = [
        [(60, [], 0, 'one'), (62, [], 2, 'one'), (15, [], 1, 'old1')],
        [(60, [], 3, 'five'), (15, [], 2, 'old2'), (0, [], 1, 'old4'),
         (62, [], 0, 'five')],
        [(60, [0], 0, 'one'), (62, [], 1, 'one')],
        [(60, [1, 0], 1, 'one'), (15, [], 0, 'old1')],
        [(60, [2, 1, 0], 2, 'five'), (62, [3], 0, 'one')],
        [(60, [9], 3, 'one'), (60, [], 1, 'one')],
        [(60, [1], 192, 'two'), (15, [], 2, 'old1')],
        [(0, [0, 0], 2, 'one'), (0, [], 0, 'one')],
        [(15, [], 3, 'one'), (15, [], 4, 'oldi')],
        [(15, [], 0, 'oldi')],
        [(0, [], 3, 'oldi')],
        [(8, [1], 2, 'one'), (9, [2], 1, 'one')],
    ]
    if tier != 'quick':
        seqs += [
            [(60, [9, 3, 9, 0], 200, 'two'), (62, [10], 0, 'one'),
             (15, [], 300, 'old2')],
            [(60, [p], n, 'one') for p, n in ((0, 0), (1, 1), (2, 2),
                                              (3, 3), (4, 4), (5, 5))],
            [(60, [], 8384, 'five'), (62, [12], 8383, 'two')],
            [(15, [], 255, 'old1'), (15, [], 65536, 'old4'),
             (15, [], 9, 'oldi')],
        ]
    for s in seqs:
        out.append(('h_read_packets', dict(specs=s)))
    return out
