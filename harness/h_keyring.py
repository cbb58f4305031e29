"""Keyrings: histories of adding, changing, deleting and finding keys."""
import os
from pgp import shortcuts
from pgp import transferrable_keys as tk
from pgp.db import gpg
from hlib import fs, rings
from hlib.util import refuses

LOOK = ['A', 'B', 'C', 'D', 'E']


def begin(sx):
    del rings.KEEP[:]
    return fs.make(sx)


def ring(disk, name='ring.gpg', secret=False, read_only=False, force=False):
    return gpg.get_resource(disk.path(name), force, secret, read_only)


def fill(sx, disk, order, old, trust, name='ring.gpg', secret=False):
    """A file with these keys; returns what it holds."""
    model = {}
    data = b''
    for i, which in enumerate(order):
        packets = rings.material(sx, which, 'first' + name, secret)
        raw = rings.octets(packets, i % 2 == 0 if old is None else old, trust)
        model[which] = rings.groups(raw)[0]
        data = data + raw
    disk.put(name, data)
    return model


def look(sx, r, model, what, names=None):
    """Everything a keyring says about its keys."""
    names = names or LOOK
    ids = dict([(k, rings.identity(sx, k)) for k in names])
    listed = list(r.keys())
    sx.check(len(listed) == len(model), what + ' number of keys')
    for k in names:
        fp, key_id = ids[k]
        inside = k in model
        sx.check((fp in listed) == inside, what + ' listed')
        sx.check((fp in r) == inside, what + ' contains')
        if not inside:
            sx.check(refuses(sx, lambda: r.get_transferrable_key(fp)),
                     what + ' not there')
            continue
        key = r.get_transferrable_key(fp)
        sx.check(isinstance(key, tk.TransferableSecretKey)
                 == (model[k][0][0] == 5), what + ' kind')
        sx.check(rings.same_packets(sx, rings.pairs(key), model[k], False),
                 what + ' key')
    for key_id in sorted(set([ids[k][1] for k in names]
                             + [ids[k][1][-8:] for k in names]
                             + ['0123456789ABCDEF', '89ABCDEF'])):
        having = [k for k in model if ids[k][1].endswith(key_id)]
        if not having:
            sx.check(refuses(sx, lambda: r.get_transferrable_key(key_id)),
                     what + ' no such ID')
            continue
        key = r.get_transferrable_key(key_id)
        sx.check(sx.either(*[rings.same_packets(
            sx, rings.pairs(key), model[k], False) for k in having]),
            what + ' by ID')
    sx.check(sorted(iter(r)) == sorted(listed), what + ' iterated')
    items = list(r.items())
    sx.check(sorted([i[0] for i in items]) == sorted(listed), what + ' items')
    for fp, key in items:
        sx.check(key.fingerprint == fp, what + ' item')
    values = list(r.values())
    sx.check(sorted([v.fingerprint for v in values]) == sorted(listed),
             what + ' values')


def change(sx, disk, r, model, kind, which, label, secret=False):
    """One operation on a keyring and on the model."""
    packets = rings.material(sx, which, label, secret,
                             more=label != 'second')
    key = rings.key_of(packets, True)
    f = {'add': r.add_transferrable_key, 'update': r.update_transferrable_key,
         'delete': r.delete_transferrable_key}[kind]
    allowed = (which in model) == (kind != 'add')
    refused = refuses(sx, lambda: f(key))
    sx.check(refused == (not allowed), kind + ' possible')
    if allowed:
        if kind == 'delete':
            del model[which]
        else:
            model[which] = packets
    sx.check(rings.file_is(sx, disk.get('ring.gpg'), model), kind + ' file')


def h_history(sx, start, first, old=True, trust=True, more=1, secret=False):
    """Any changes through either of two objects for one file."""
    disk = begin(sx)
    try:
        model = fill(sx, disk, start, old, trust, secret=secret)
        both = [ring(disk, secret=secret), ring(disk, secret=secret)]
        kind, which = first
        names = LOOK if 'F' not in start + which else 'AFB'
        change(sx, disk, both[0], model, kind, which, 'second', secret)
        for n in range(more):
            r = sx.choose('by %d' % n, both)
            kind = sx.choose('kind %d' % n, ['add', 'update', 'delete'])
            which = sx.choose('which %d' % n, names)
            change(sx, disk, r, model, kind, which, 'third %d' % n, secret)
        look(sx, both[0], model, 'first', names)
        look(sx, both[1], model, 'second', names)
        look(sx, ring(disk, secret=secret), model, 'new', names)
        sx.check(disk.mode('ring.gpg') == 0o600, 'mode')
        sx.reach('history')
    finally:
        disk.close()


def h_read_only(sx, start):
    """Read-only keyrings can be read, only."""
    disk = begin(sx)
    try:
        model = fill(sx, disk, start, sx.choose('old', [True, False]), True)
        before = disk.get('ring.gpg')
        r = ring(disk, read_only=True)
        key = rings.key_of(rings.material(
            sx, sx.choose('which', LOOK), 'second'))
        f = sx.choose('kind', [r.add_transferrable_key,
                               r.update_transferrable_key,
                               r.delete_transferrable_key])
        sx.check(refuses(sx, lambda: f(key)), 'refused')
        sx.check(sx.eq(disk.get('ring.gpg'), before), 'unchanged')
        look(sx, r, model, 'read only')
        sx.reach('read only')
    finally:
        disk.close()


def h_create(sx, force, prefix, first):
    """A keyring that does not exist, and empty ones."""
    disk = begin(sx)
    try:
        name = prefix + disk.path('ring.gpg')
        if not force:
            sx.check(refuses(sx, lambda: gpg.get_resource(name)), 'not there')
            sx.check('ring.gpg' not in disk.names(), 'not created')
            sx.reach('create')
            return
        r = gpg.get_resource(name, True)
        sx.check(disk.get('ring.gpg') == b'', 'empty')
        sx.check(disk.mode('ring.gpg') == 0o600, 'mode')
        look(sx, r, {}, 'empty')
        r2 = gpg.get_resource(name, sx.choose('force', [True, False]))
        look(sx, r2, {}, 'empty again')
        model = {}
        change(sx, disk, r2, model, 'add', first, 'second')
        change(sx, disk, r, model, sx.choose('kind', ['add', 'delete']),
               sx.choose('which', LOOK), 'third')
        look(sx, r2, model, 'second')
        # opening it again, even by force, changes nothing
        r3 = gpg.get_resource(name, True)
        look(sx, r3, model, 'third')
        sx.check(disk.mode('ring.gpg') == 0o600, 'mode')
        sx.reach('create')
    finally:
        disk.close()


def h_kind(sx, head):
    """What kind of file it is."""
    disk = begin(sx)
    try:
        data = b''.join([sx.bytes('%d' % i, 1) if c is None
                         else bytes(bytearray([c]))
                         for i, c in enumerate(head)])
        disk.put('other', data)
        sx.check(refuses(sx, lambda: gpg.get_resource(disk.path('other'))),
                 'refused')
        sx.check(sx.eq(disk.get('other'), data), 'unchanged')
        sx.reach('kind')
    finally:
        disk.close()


def h_database(sx, kind, secret, which, primary):
    """A database puts keys into the first keyring of their kind."""
    disk = begin(sx)
    try:
        db = gpg.GPGDatabase()
        models = {}
        for name, order, is_secret in [('pub', 'A', False),
                                       ('sec', 'B', True),
                                       ('pub2', 'D', False),
                                       ('sec2', 'D', True)]:
            models[name] = fill(sx, disk, order, True, False, name, is_secret)
            db.add_resource(disk.path(name), secret=is_secret,
                            primary=name == primary)
        packets = rings.material(sx, which, 'second', secret)
        key = rings.key_of(packets)
        target = 'sec' if secret else 'pub'
        if primary == target + '2':
            target = primary
        f = {'add': db.add_key, 'update': db.update_key,
             'delete': db.delete_key}[kind]
        allowed = (which in models[target]) == (kind != 'add')
        sx.check(refuses(sx, lambda: f(key)) == (not allowed), 'possible')
        if allowed:
            if kind == 'delete':
                del models[target][which]
            else:
                models[target][which] = packets
        for name in models:
            sx.check(rings.file_is(sx, disk.get(name), models[name]), name)
        ids = dict([(k, rings.identity(sx, k)) for k in LOOK])
        sx.check(sorted(db.keys()) == sorted(
            [ids[k][0] for n in models for k in models[n]]), 'keys')
        for k in LOOK:
            for how in [dict(fingerprint=ids[k][0]), dict(key_id=ids[k][1]),
                        dict(key_id=ids[k][1][-8:])]:
                found = db.search(**how)
                want = list(how.values())[0]
                expect = 0
                for n in models:
                    names = [x for x in models[n]
                             if ids[x][0] == want
                             or 'key_id' in how and ids[x][1].endswith(want)]
                    expect += bool(names)
                sx.check(len(found) == expect, 'found')
                for x in found:
                    sx.check(x.fingerprint == want or 'key_id' in how
                             and x.key_id.endswith(want), 'match')
        sx.check(db.search() == [], 'nothing')
        sx.reach('database')
    finally:
        disk.close()


def h_default(sx, ask, missing):
    """The default database is GnuPG's."""
    disk = begin(sx)
    home = os.path.join(os.path.expanduser('~'), '.gnupg')
    get_resource = gpg.get_resource
    asked = []

    def moved(filename, *args, **kw):
        asked.append(filename)
        folder, name = os.path.split(filename)
        sx.check(folder == home, 'folder')
        return get_resource(disk.path(name), *args, **kw)
    try:
        sx.patch(gpg, 'get_resource', moved)
        models = {}
        if missing != 'secring.gpg':
            models['secring.gpg'] = fill(sx, disk, 'B', True, False,
                                         'secring.gpg', True)
        if missing != 'pubring.gpg':
            models['pubring.gpg'] = fill(sx, disk, 'AB', True, False,
                                         'pubring.gpg')

        def load():
            if ask == 'shortcut':
                return shortcuts.get_gnupg_db()
            db = gpg.GPGDatabase()
            db.load_default_resources(force=ask == 'force',
                                      read_only=ask == 'read only')
            return db
        if missing and ask != 'force':
            sx.check(refuses(sx, load), 'refused')
            sx.check(missing not in disk.names(), 'not created')
            sx.assume(len(asked) > 0)
            sx.reach('default')
            return
        db = load()
        sx.assume(len(asked) > 0)
        sx.check(sorted(asked) == [os.path.join(home, 'pubring.gpg'),
                                   os.path.join(home, 'secring.gpg')],
                 'keyrings')
        if missing:
            models[missing] = {}
            sx.check(disk.get(missing) == b'', 'created')
        sx.check(sorted(db.keys()) == sorted(
            [rings.identity(sx, k)[0] for n in models for k in models[n]]),
            'keys')
        secret = sx.choose('secret', [False, True])
        kind = sx.choose('kind', ['add', 'delete'])
        which = sx.choose('which', ['A', 'B', 'D'])
        packets = rings.material(sx, which, 'second', secret)
        key = rings.key_of(packets)
        model = models['secring.gpg' if secret else 'pubring.gpg']
        f = {'add': db.add_key, 'delete': db.delete_key}[kind]
        allowed = (which in model) == (kind != 'add') and ask != 'read only'
        sx.check(refuses(sx, lambda: f(key)) == (not allowed), 'possible')
        if allowed:
            if kind == 'delete':
                del model[which]
            else:
                model[which] = packets
        for name in models:
            sx.check(rings.file_is(sx, disk.get(name), models[name]), name)
        sx.reach('default')
    finally:
        disk.close()


def fold(c):
    return c | 0x20


def h_search(sx, n, ring_order):
    """Searching by user ID finds the keys with that in a user ID."""
    disk = begin(sx)
    try:
        db = gpg.GPGDatabase()
        models = {}
        for name, order in [('pub', ring_order), ('pub2', 'D')]:
            models[name] = fill(sx, disk, order, True, True, name)
            db.add_resource(disk.path(name))
        needle = []
        for i in range(n):
            c = sx.int('c%d' % i, 0x41, 0x7a)
            sx.assume(sx.either(c <= 0x5a, c >= 0x61))
            needle.append(c)
        text = ''.join([chr(c) for c in needle])
        found = db.search(user_id=text)
        got = [k.fingerprint for k in found]
        total = 0
        for name in sorted(models):
            for k in models[name]:
                fp = rings.identity(sx, k)[0]
                total += 1
                uids = [bytearray(b) for t, b in models[name][k] if t == 13]
                hit = sx.either(*[
                    sx.all(*[fold(u[i + j]) == fold(needle[j])
                             for j in range(n)])
                    for u in uids for i in range(len(u) - n + 1)])
                if fp in got:
                    sx.check(hit, 'no match')
                else:
                    sx.check(sx.no(hit), 'missed')
        sx.check(len(set(got)) == len(got), 'once')
        # together with a key ID
        k = sx.choose('which', sorted(models['pub']))
        fp = rings.identity(sx, k)[0]
        both = db.search(fingerprint=fp, user_id=text)
        sx.check([x.fingerprint for x in both]
                 == ([fp] if fp in got else []), 'both')
        sx.reach('search')
    finally:
        disk.close()


# --- cases ---
def cases(tier):
    thorough = tier != 'quick'
    out = []
    starts = ['ABD', 'DCA', 'B'] if not thorough else [
        'ABD', 'DCA', 'B', 'ABCD', 'CDB', '']
    for start in starts:
        for kind in ('add', 'update', 'delete'):
            for which in 'ABCD':
                if (which in start) == (kind == 'add'):
                    continue
                out.append(('h_history', dict(
                    start=start, first=[kind, which],
                    old=which in 'AC', more=2 if thorough and len(start) < 4
                    else 1), dict(deadline_s=250 if thorough else 60)))
    # keys of a single packet
    for start, kind, which in (('EA', 'add', 'B'), ('AED', 'delete', 'A'),
                               ('DEB', 'update', 'D'), ('BE', 'update', 'E'),
                               ('AEB', 'delete', 'E'), ('A', 'add', 'E')):
        out.append(('h_history', dict(start=start, first=[kind, which],
                                      old=None, trust=which != 'D')))
    # a large one
    for start, kind, which in (('AF', 'add', 'B'), ('AFB', 'delete', 'A'),
                               ('AFB', 'update', 'F'), ('FA', 'delete', 'F'),
                               ('AB', 'add', 'F'), ('AFB', 'update', 'B')):
        out.append(('h_history', dict(start=start, first=[kind, which],
                                      old=which == 'A', trust=which != 'D')))
    for kind, which in (('add', 'C'), ('update', 'A'), ('delete', 'A')):
        out.append(('h_history', dict(start='ABD', first=[kind, which],
                                      secret=True, trust=False)))
    out.append(('h_read_only', dict(start='AD')))
    for prefix in ('', 'gnupg-keyring:'):
        out.append(('h_create', dict(force=False, prefix=prefix, first='A')))
        for first in 'AD' if not thorough else 'ABCD':
            out.append(('h_create', dict(force=True, prefix=prefix,
                                         first=first)))
    gdbm = [[0x13, 0x57, 0x9a, 0xce], [0xce, 0x9a, 0x57, 0x13]]
    for head in gdbm:
        out.append(('h_kind', dict(head=head + [None, None])))
    out.append(('h_kind', dict(head=[None, None, None, 32, 1, 1, 0, 0, 0x4b,
                                     0x42, 0x58, 0x66, None])))
    for kind in ('add', 'update', 'delete'):
        for secret in (False, True):
            for which, primary in (('A', None), ('B', None), ('D', None),
                                   ('D', 'pub2'), ('A', 'sec2'),
                                   ('D', 'sec2')):
                out.append(('h_database', dict(
                    kind=kind, secret=secret, which=which,
                    primary=primary)))
    for ask in ('shortcut', 'read only', 'force', 'not forced'):
        for missing in (None, 'secring.gpg', 'pubring.gpg'):
            if missing is None or ask in ('shortcut', 'force'):
                out.append(('h_default', dict(ask=ask, missing=missing)))
    for n in (1, 2):
        out.append(('h_search', dict(n=n, ring_order='AB')))
    if thorough:
        out.append(('h_search', dict(n=3, ring_order='CA')))
    return out
