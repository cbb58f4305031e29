"""Transferable keys: which sequences of packets they are, and their parts."""
from pgp import shortcuts
from pgp import transferrable_keys as tk
from pgp.packets import constants as C
from pgp.packets import packets as pk
from pgp.packets.parsers import parse_binary_packet_data
from hlib import fs, real
from hlib.keys import sig3_body, sig4_body, subpacket
from hlib.util import be, mpi, new_frame, old_frame

CERTS = (0x10, 0x11, 0x12, 0x13, 0x30)
TAGS = {'K': 6, 'k': 5, 'U': 13, 'A': 17, 'S': 2, 'V': 2, 'B': 14, 'b': 7,
        'T': 12, 'L': 11, 'E': 1, 'P': 6}


def sig_body(type_, i, version):
    """A signature packet that can be told from the others."""
    mpis = mpi(0x100 + i) + mpi(0x55)
    if version == 3:
        return sig3_body(type_, be(1400000000 + i, 4), b'abcdefgh', 17, 2,
                         be(i, 2), mpis)
    hashed = subpacket(2, be(1400000000 + i, 4)) + subpacket(16, b'abcdefgh')
    return sig4_body(type_, 17, 2, hashed, b'', be(i, 2), mpis)


def bodies(sx, seq, types, version=4):
    """The octets of the packets of a sequence."""
    out = []
    for i, c in enumerate(seq):
        if c == 'K' or c == 'P':
            body = real.public_body(1, 'rsa', version=version)
        elif c == 'k':
            body = real.secret_body(1, 'rsa', version=version)
        elif c == 'U':
            body = sx.bytes('uid%d' % i, 1)
            sx.assume(bytearray(body)[0] < 128)
        elif c == 'A':
            body = b'\x16\x01\x10\x00\x01\x01' + bytes(bytearray(12)) + \
                sx.bytes('attr%d' % i, 5)
        elif c in 'SV':
            body = sig_body(types[i], i, 3 if c == 'V' else 4)
        elif c == 'B':
            body = real.public_body(16, 'elg', 1400000000 + i)
        elif c == 'b':
            body = real.secret_body(16, 'elg', 1400000000 + i)
        elif c == 'T':
            body = sx.bytes('trust%d' % i, 1)
            sx.assume(bytearray(body)[0] < 128)
        elif c == 'L':
            body = b'b\x00\x00\x00\x00\x00abc'
        elif c == 'E':
            body = b'\x03' + b'abcdefgh' + b'\x01' + mpi(0x1ff)
        out.append(body)
    return out


def member(sx, v, values):
    return sx.either(*[v == w for w in values])


def grammar(sx, seq, types, secret, version=4):
    """RFC 4880 section 11.1, with the types allowed at each place."""
    if not seq or seq[0] != ('k' if secret else 'K'):
        return False
    sub = 'b' if secret else 'B'
    ok = []
    place = 'key'
    for i, c in enumerate(seq[1:], 1):
        if place == 'bind' and c not in 'SV':
            return False
        if c == 'T':
            if seq[i - 1] not in 'SVT':
                return False
        elif c == 'U':
            if place not in ('key', 'uid'):
                return False
            place = 'uid'
        elif c == 'A':
            if place not in ('key', 'uid', 'attr'):
                return False
            place = 'attr'
        elif c == sub:
            if version < 4:
                return False
            place = 'bind'
        elif c in 'SV':
            t = types[i]
            if place == 'key':
                ok.append(member(sx, t, (0x1f, 0x20)))
            elif place in ('uid', 'attr'):
                ok.append(member(sx, t, CERTS))
            elif place == 'bind':
                ok.append(t == 0x18)
                place = 'bound'
                revoked = False
            else:
                # further bindings, then revocations
                ok.append(member(sx, t, (0x18, 0x28)))
                if revoked is not False:
                    ok.append(sx.either(sx.no(revoked), t == 0x28))
                revoked = t == 0x28 if revoked is False else \
                    sx.either(revoked, t == 0x28)
        else:
            return False
    if place == 'bind':
        return False
    return sx.all(*ok) if ok else True


def frames(seq, octets, form):
    out = []
    for i, (c, body) in enumerate(zip(seq, octets)):
        old = TAGS[c] < 16 and (form == 'old' or (form == 'mixed' and i % 2))
        out.append((old_frame if old else new_frame)(TAGS[c], body))
    return out


def parsed(frames_):
    return [pk.packet_from_packet_data(bytearray(f), 0)[1] for f in frames_]


def check_parts(sx, key, seq, octets):
    """Each part has its octets and its signatures, in order."""
    found = [[(key, 0), key.signatures]]
    want = [[0]]
    for i, c in enumerate(seq[1:], 1):
        if c in 'UABb':
            want.append([i])
        elif c in 'SV':
            want[-1].append(i)
    for u in key.user_ids:
        found.append([u, u.signatures])
    for u in key.user_attributes:
        found.append([u, u.signatures])
    for u in key.subkeys:
        found.append([u, u.signatures])
    found[0][0] = key
    sx.check(len(found) == len(want), 'parts')
    for (part, sigs), w in zip(found, want):
        sx.check(sx.eq(bytes(part.to_packet().content), octets[w[0]]),
                 'part')
        sx.check(len(sigs) == len(w) - 1, 'signatures of a part')
        for s, k in zip(sigs, w[1:]):
            sx.check(sx.eq(bytes(s.to_packet().content), octets[k]),
                     'signature')
    names = [len(key.user_ids), len(key.user_attributes), len(key.subkeys)]
    sx.check(names == [seq.count('U'), seq.count('A'),
                       seq.count('B') + seq.count('b')], 'kinds')


def h_grammar(sx, seq, secret, form, version=4):
    """Read if and only if it is a key, and then nothing is lost."""
    types = {}
    for i, c in enumerate(seq):
        if c in 'SV':
            types[i] = sx.int('type%d' % i, 0, 255)
    octets = bodies(sx, seq, types, version)
    want = grammar(sx, seq, types, secret, version)
    fr = frames(seq, octets, form)
    class_ = tk.TransferableSecretKey if secret else tk.TransferablePublicKey
    packets = parsed(fr)
    try:
        key = class_.from_packets(packets)
        good = True
    except Exception:
        good = False
    if not good:
        sx.check(sx.no(want), 'refused')
        sx.reach('refused')
        return
    sx.check(want, 'accepted')
    check_parts(sx, key, seq, octets)
    data = b''.join(f for f, c in zip(fr, seq) if c != 'T')
    sx.check(sx.eq(b''.join([bytes(p) for p in key.to_packets()]), data),
             'written')
    for form2, name in ((C.OLD_PACKET_HEADER_TYPE, 'old'),
                        (C.NEW_PACKET_HEADER_TYPE, 'new')):
        data = b''.join(f for f, c in zip(frames(seq, octets, name), seq)
                        if c != 'T')
        sx.check(sx.eq(b''.join(
            [bytes(p) for p in key.to_packets(form2)]), data),
            'written in the %s format' % name)
    sx.reach('accepted')


def h_public(sx, seq, form):
    """The public key of a secret key is it without the secret parts."""
    types = {}
    for i, c in enumerate(seq):
        if c in 'SV':
            types[i] = {'k': 0x1f, 'U': 0x13, 'A': 0x10, 'b': 0x18}[
                [d for d in seq[:i] if d not in 'SV'][-1]]
    octets = bodies(sx, seq, types)
    key = tk.TransferableSecretKey.from_packets(
        parsed(frames(seq, octets, form)))
    public = seq.replace('k', 'K').replace('b', 'B')
    data = frames(public, bodies_public(sx, seq, octets), form)
    got = key.to_public_key()
    sx.check(isinstance(got, tk.TransferablePublicKey), 'public')
    sx.check(not isinstance(got, tk.TransferableSecretKey), 'secret')
    sx.check(sx.eq(b''.join([bytes(p) for p in got.to_packets()]),
                   b''.join(data)), 'public key')
    key.unlock('')
    sx.check(sx.eq(b''.join([bytes(p) for p in
                             key.to_public_key().to_packets()]),
                   b''.join(data)), 'unlocked')
    sx.check(sx.eq(b''.join([bytes(p) for p in key.to_packets()]),
                   b''.join(frames(seq, octets, form))), 'secret key')
    sx.reach('public')


def bodies_public(sx, seq, octets):
    out = []
    for i, (c, body) in enumerate(zip(seq, octets)):
        if c == 'k':
            body = real.public_body(1, 'rsa')
        elif c == 'b':
            body = real.public_body(16, 'elg', 1400000000 + i)
        out.append(body)
    return out


def h_files(sx, seq, armored, form, how):
    """Reading what a key was serialized to gives the key."""
    types = {}
    for i, c in enumerate(seq):
        if c in 'SV':
            types[i] = {'k': 0x20, 'K': 0x1f, 'U': 0x13, 'A': 0x30,
                        'b': 0x18, 'B': 0x18}[
                [d for d in seq[:i] if d not in 'SV'][-1]]
    octets = bodies(sx, seq, types)
    secret = seq[0] == 'k'
    class_ = tk.TransferableSecretKey if secret else tk.TransferablePublicKey
    key = class_.from_packets(parsed(frames(seq, octets, 'mixed')))
    header = {'old': C.OLD_PACKET_HEADER_TYPE,
              'new': C.NEW_PACKET_HEADER_TYPE, None: None}[form]
    out = shortcuts.serialize_key(key, armored, header)
    data = b''.join(frames(seq, octets, form or 'old'))
    if not armored:
        sx.check(sx.eq(bytes(out), data), 'octets')
    else:
        name = 'PRIVATE' if secret else 'PUBLIC'
        sx.check(out.startswith('-----BEGIN PGP %s KEY BLOCK-----\n' % name),
                 'first line')
    if how == 'bytes' and armored:
        out = out.encode('ascii')
    back = shortcuts.read_key(out, armored and how != 'bytes')
    sx.check(type(back) is class_, 'class')
    check_parts(sx, back, seq, octets)
    sx.check(sx.eq(bytes(shortcuts.serialize_key(back, False, header)), data),
             'again')
    sx.reach('files')


def h_on_disk(sx, seq, armored, how, before):
    """Key files: what was there before is gone, and reading gives the key."""
    disk = fs.make(sx)
    types = {}
    for i, c in enumerate(seq):
        if c == 'S':
            types[i] = {'k': 0x20, 'K': 0x1f, 'U': 0x13, 'A': 0x30,
                        'b': 0x18, 'B': 0x18}[
                [d for d in seq[:i] if d != 'S'][-1]]
    octets = bodies(sx, seq, types)
    secret = seq[0] == 'k'
    class_ = tk.TransferableSecretKey if secret else tk.TransferablePublicKey
    key = class_.from_packets(parsed(frames(seq, octets, 'mixed')))
    data = b''.join(frames(seq, octets, 'old'))
    name = disk.path('key.gpg')
    other = frames('U', [b'someone else'], 'old')[0]
    if before == 'long':
        disk.put('key.gpg', data + other * 40)
    elif before == 'short':
        disk.put('key.gpg', other)
    disk.put('other.gpg', other)
    shortcuts.write_key_file(key, name, armored)
    there = disk.get('key.gpg')
    if armored:
        sx.check(sx.eq(there, shortcuts.serialize_key(key, True)
                       .encode('ascii')), 'armored')
        sx.check(bytes(there[:5]) == b'-----', 'not armored')
    else:
        sx.check(sx.eq(there, data), 'octets')
    sx.check(disk.names() == ['key.gpg', 'other.gpg'], 'files')
    sx.check(sx.eq(disk.get('other.gpg'), other), 'other file')
    back = shortcuts.read_key_file(name, armored and how != 'binary')
    sx.check(type(back) is class_, 'class')
    check_parts(sx, back, seq, octets)
    sx.check(sx.eq(disk.get('key.gpg'), there), 'changed by reading')
    sx.check(sx.eq(bytes(shortcuts.serialize_key(back)), data), 'again')
    disk.close()
    sx.reach('on disk')


def h_first(sx, seq):
    """Other packets are no key."""
    types = dict((i, 0) for i in range(len(seq)))
    octets = bodies(sx, seq, types)
    data = b''.join(frames(seq, octets, 'new'))
    try:
        shortcuts.read_key(data)
        good = True
    except Exception:
        good = False
    sx.check(not good, 'read')
    sx.reach('refused')


# --- cases ---
def cases(tier):
    thorough = tier != 'quick'
    out = []

    def state(seq):
        """None: no such key, whatever the signatures."""
        place = 'key'
        for i, c in enumerate(seq[1:], 1):
            if place == 'bind' and c not in 'SV':
                return None
            if c == 'T':
                if seq[i - 1] not in 'SVT':
                    return None
            elif c == 'U':
                if place not in ('key', 'uid'):
                    return None
                place = 'uid'
            elif c == 'A':
                if place == 'bound':
                    return None
                place = 'attr'
            elif c == 'B':
                place = 'bind'
            elif c == 'S':
                place = 'bound' if place == 'bind' else place
            else:
                return None
        return place

    seqs = []
    level = ['K']
    for n in range(7 if thorough else 6):
        nxt = []
        for s in level:
            for c in 'USABT':
                t = s + c
                if t.count('S') > (4 if thorough else 3) or \
                        t.count('T') > 1 or t.count('A') > 2 or \
                        t.count('U') > 2:
                    continue
                seqs.append(t)
                if state(t) is not None:
                    nxt.append(t)
        level = nxt
    seqs = [''.join(s) for s in seqs]
    picked = []
    for i, s in enumerate(seqs):
        if len(s) > (6 if thorough else 5) and i % (3 if thorough else 9):
            continue
        if not thorough and len(s) == 5 and i % 2:
            continue
        picked.append(s)
    picked += ['K', 'KL', 'KUSL', 'KLUS', 'KE', 'KUK', 'KK', 'KUSP', 'KUV',
               'KVUVV', 'KBV', 'KUVBVV', 'KUSb', 'KUSbS', 'Kb', 'U', 'S',
               'B', 'BS', 'T', 'TK', 'UK', 'SK', 'KSTT', 'KUSTT', 'KSTS',
               'KBSTS', 'KBSTBS', 'KUST', 'KUTS', 'KTU', 'KBTS',
               'KUSASBSBS', 'KUSUSASASBSBS']
    forms = ('new', 'old', 'mixed')
    for i, s in enumerate(picked):
        out.append(('h_grammar', dict(seq=s, secret=False,
                                      form=forms[i % 3])))
        if i % 4 == 0 or len(s) < 4:
            t = s.replace('K', 'k').replace('B', 'b')
            out.append(('h_grammar', dict(seq=t, secret=True,
                                          form=forms[(i + 1) % 3])))
    for s in ('k', 'kU', 'kB', 'kBS', 'kUSBS', 'KUS', 'KBS'):
        out.append(('h_grammar', dict(seq=s, secret=True, form='new')))
    for s in ('k', 'kUS', 'kbS', 'KbS', 'KUSbS'):
        out.append(('h_grammar', dict(seq=s, secret=False, form='new')))
    out.append(('h_grammar', dict(seq='K' + 'US' * 10 + 'AS' * 2 + 'BS' * 5,
                                  secret=False, form='new')))
    out.append(('h_grammar', dict(seq='kS' + 'US' * 4 + 'S' + 'bS' * 5,
                                  secret=True, form='old')))
    out.append(('h_public', dict(seq='kS' + 'US' * 14 + 'S' + 'bS' * 12,
                                 form='old')))
    for version in (2, 3):
        for s in ('K', 'KU', 'KUV', 'KVUV', 'KB', 'KBS', 'KUVBV', 'KUVAV'):
            out.append(('h_grammar', dict(seq=s, secret=False, form='old',
                                          version=version)))
        for s in ('k', 'kUV', 'kbS', 'kUVbV'):
            out.append(('h_grammar', dict(seq=s, secret=True, form='old',
                                          version=version)))
    for form in forms:
        for s in ('k', 'kS', 'kUSS', 'kSUSUSASbSbSS', 'kbS', 'kAVbV'):
            out.append(('h_public', dict(seq=s, form=form)))
    for armored in (False, True):
        for form in ('old', 'new', None):
            for how in ('text', 'bytes'):
                if how == 'bytes' and not armored:
                    continue
                for s in ('K', 'KSUSASBS', 'k', 'kUSbS'):
                    out.append(('h_files', dict(seq=s, armored=armored,
                                                form=form, how=how)))
    for s in ('U', 'S', 'B', 'BS', 'L', 'E', 'T', 'UK', 'LK', 'SK', 'TK',
              'b', 'bS', 'Uk'):
        out.append(('h_first', dict(seq=s)))
    for n, seq in enumerate(['K', 'KUS', 'KSUSASBS', 'k', 'kUSbS']):
        for before in ('', 'long', 'short'):
            out.append(('h_on_disk', dict(seq=seq, armored=False, how='',
                                          before=before)))
            for how in ('', 'binary'):
                out.append(('h_on_disk', dict(seq=seq, armored=True, how=how,
                                              before=before)))
    return out
