"""Keyrings: changes that are interrupted or fail at any point."""
import errno

from pgp.db import gpg
from hlib import fs, rings
from hlib.util import refuses

STATE = fs.containers([gpg])
NAME = 'ring.gpg'
# Operations on files that may fail for want of space or the like
FALLIBLE = ('open', 'write', 'fsync', 'rename', 'chmod', 'truncate', 'link')


def begin(sx, start, mode=0o600, secret=False):
    del rings.KEEP[:]
    fs.pristine(STATE)
    disk = fs.FS(sx)
    model = {}
    data = b''
    for which in start.replace('-', ''):
        packets = rings.material(sx, which, 'first', secret)
        raw = rings.octets(packets, True, True)
        model[which] = rings.groups(raw)[0]
        data = data + raw
    if start != '-':
        disk.put(NAME, data, mode)
    return disk, model


def operation(sx, r, kind, which, label, secret=False):
    packets = rings.material(sx, which, label, secret)
    key = rings.key_of(packets)
    f = {'add': r.add_transferrable_key, 'update': r.update_transferrable_key,
         'delete': r.delete_transferrable_key,
         'get': lambda k: r.get_transferrable_key(k.fingerprint)}[kind]
    return packets, lambda: f(key)


def after(model, kind, which, packets):
    new = dict(model)
    if kind == 'delete':
        del new[which]
    elif kind != 'get':
        new[which] = packets
    return new


class Breaker(object):
    """Interrupts one operation on the file system."""

    def __init__(self, sx, disk, how, mode):
        self.sx = sx
        self.disk = disk
        self.how = how
        self.mode = mode
        self.n = 0
        self.fired = None
        disk.hook = self

    def __call__(self, kind, path, detail):
        self.private()
        if self.fired is not None:
            return
        if self.how == 'error' and kind not in FALLIBLE:
            return
        self.n += 1
        if not self.sx.choose('at %d' % self.n, [False, True]):
            return
        self.fired = kind
        if kind == 'write':
            # a part of it may have been written
            size = len(detail.data)
            cut = self.sx.choose('cut', sorted(set(
                [0, size // 2, max(size - 1, 0)])))
            detail.inode.data = detail.data[:cut]
        if self.how == 'error':
            if kind == 'write':
                detail.pending = False
            raise OSError(errno.ENOSPC, 'No space left on device', path)
        self.disk.dead[self.disk.pid] = True
        raise fs.Crash()

    def private(self):
        """Nobody may read what the owner of the keyring alone could."""
        for path in sorted(self.disk.files):
            node = self.disk.files[path]
            if len(node.data) > 100:
                self.sx.check(node.mode & 0o777 & ~self.mode == 0,
                              'readable by others')


def power(sx, disk):
    """What was not written out for certain may be lost."""
    seen = []
    for path in sorted(disk.files):
        node = disk.files[path]
        if node in seen:
            continue
        seen.append(node)
        if node.data is node.stable:
            continue
        size = len(node.data)
        n = sx.choose('left %d' % len(seen), sorted(set(
            [0, size // 2, max(size - 1, 0), size])))
        node.data = node.data[:n]


def restart(disk, same_pid):
    """All processes are gone, new ones run."""
    fs.pristine(STATE)
    disk.hook = None
    if not same_pid:
        disk.pid = 70002
        disk.alive = [70002]
    disk.dead = {}


def h_crash(sx, start, kind, which, how, same_pid, mode=0o600, secret=False):
    """There are the keys from before, or those from after."""
    disk, model = begin(sx, start, mode, secret)
    r = gpg.get_resource(disk.path(NAME), False, secret)
    packets, f = operation(sx, r, kind, which, 'second', secret)
    new = after(model, kind, which, packets)
    for node in disk.files.values():
        node.stable = node.data
    b = Breaker(sx, disk, how, mode)
    try:
        f()
    except fs.Crash:
        if how == 'power':
            power(sx, disk)
    else:
        sx.check(b.fired is None, 'went on')
        sx.check(rings.file_is(sx, disk.get(NAME), new), 'done')
        sx.check(disk.mode(NAME) == mode, 'mode')
        sx.reach('done')
        return
    restart(disk, same_pid)
    data = disk.get(NAME)
    was_old = sx.choose('old', [True, False])
    sx.assume(rings.file_is(sx, data, model) if was_old else True)
    if not was_old:
        sx.check(sx.either(rings.file_is(sx, data, new),
                           rings.file_is(sx, data, model)), 'old or new')
    now = model if was_old else new
    if not was_old:
        sx.assume(rings.file_is(sx, data, new))
    goes_on(sx, disk, now, secret)
    sx.check(disk.mode(NAME) == mode, 'mode')
    sx.reach('crash')


def goes_on(sx, disk, now, secret=False, r=None):
    """The keyring can be used."""
    if r is None:
        r = gpg.get_resource(disk.path(NAME), False, secret)
    sx.check(len(list(r.keys())) == len(now), 'keys')
    for which in sorted(now):
        fp = rings.identity(sx, which)[0]
        key = r.get_transferrable_key(fp)
        sx.check(rings.same_packets(sx, rings.pairs(key), now[which], False),
                 'key')
    which = 'D'
    kind = 'update' if which in now else 'add'
    packets, f = operation(sx, r, kind, which, 'later', secret)
    f()
    later = after(now, kind, which, packets)
    sx.check(rings.file_is(sx, disk.get(NAME), later), 'later')


def h_error(sx, start, kind, which):
    """A change that fails has been made or not, and the next one works."""
    disk, model = begin(sx, start)
    r = gpg.get_resource(disk.path(NAME))
    other = gpg.get_resource(disk.path(NAME))
    packets, f = operation(sx, r, kind, which, 'second')
    new = after(model, kind, which, packets)
    b = Breaker(sx, disk, 'error', 0o600)
    failed = refuses(sx, f)
    disk.hook = None
    data = disk.get(NAME)
    if not failed:
        sx.check(rings.file_is(sx, data, new), 'done')
        now = new
    else:
        sx.check(b.fired is not None, 'for no reason')
        same = rings.file_is(sx, data, model)
        if sx.either(same):
            now = model
        else:
            sx.check(rings.file_is(sx, data, new), 'old or new')
            now = new
    sx.check(disk.mode(NAME) == 0o600, 'mode')
    goes_on(sx, disk, now, r=sx.choose('by', [r, other, None]))
    sx.reach('error')


def h_create(sx, how, same_pid):
    """A keyring that was being made."""
    disk, _ = begin(sx, '-')
    b = Breaker(sx, disk, how, 0o600)
    try:
        gpg.get_resource(disk.path(NAME), True, True)
    except fs.Crash:
        if how == 'power':
            power(sx, disk)
    restart(disk, same_pid)
    if NAME in disk.names():
        sx.check(disk.mode(NAME) & 0o077 == 0, 'mode')
    r = gpg.get_resource(disk.path(NAME), True, True)
    sx.check(disk.get(NAME) == b'', 'empty')
    goes_on(sx, disk, {}, True, r)
    sx.check(disk.mode(NAME) & 0o077 == 0, 'mode')
    sx.reach('create')


# --- cases ---
def cases(tier):
    thorough = tier != 'quick'
    out = []
    ops = [('AB', 'add', 'D'), ('ABD', 'update', 'B'), ('ADB', 'delete', 'A'),
           ('AB', 'get', 'B')]
    if thorough:
        ops += [('', 'add', 'A'), ('CAD', 'update', 'C'), ('A', 'delete', 'A'),
                ('ABCD', 'delete', 'C'), ('DCA', 'update', 'D')]
    for start, kind, which in ops:
        for how in ('kill', 'power'):
            for same_pid in (False, True):
                out.append(('h_crash', dict(start=start, kind=kind,
                                            which=which, how=how,
                                            same_pid=same_pid)))
        out.append(('h_crash', dict(start=start, kind=kind, which=which,
                                    how='kill', same_pid=False, secret=True)))
        out.append(('h_crash', dict(start=start, kind=kind, which=which,
                                    how='kill', same_pid=False, mode=0o640)))
        out.append(('h_error', dict(start=start, kind=kind, which=which)))
    # a large key
    for start, kind, which in [('AFB', 'delete', 'A'), ('AB', 'add', 'F'),
                               ('AFB', 'update', 'F'), ('AFB', 'add', 'D')]:
        for how in ('kill', 'power'):
            out.append(('h_crash', dict(start=start, kind=kind, which=which,
                                        how=how, same_pid=False)))
        out.append(('h_error', dict(start=start, kind=kind, which=which)))
    for how in ('kill', 'power'):
        for same_pid in (False, True):
            out.append(('h_create', dict(how=how, same_pid=same_pid)))
    return out
