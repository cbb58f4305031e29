"""Keyrings: several processes at once."""
from pgp.db import gpg
from hlib import fs, rings
from hlib.procs import Procs
from hlib.util import refuses

STATE = fs.containers([gpg])
NAME = 'ring.gpg'


def begin(sx, start):
    del rings.KEEP[:]
    fs.pristine(STATE)
    disk = fs.FS(sx)
    model = {}
    data = b''
    for which in start:
        packets = rings.material(sx, which, 'first')
        raw = rings.octets(packets, True, True)
        model[which] = rings.groups(raw)[0]
        data = data + raw
    disk.put(NAME, data)
    return disk, model


class Actor(object):
    """A process with things to do."""

    def __init__(self, sx, disk, n, todo, opened, ring=None):
        self.sx = sx
        self.disk = disk
        self.todo = todo
        self.results = []
        self.ring = ring
        self.packets = []
        for i, (kind, which) in enumerate(todo):
            self.packets.append(rings.material(
                sx, which, 'by %d %d' % (n, i), more=False))
        self.keys = [rings.key_of(p) for p in self.packets]
        if opened and ring is None:
            self.open()

    def open(self):
        self.ring = gpg.get_resource(self.disk.path(NAME))

    def run(self):
        if self.ring is None:
            self.open()
        r = self.ring
        for (kind, which), key in zip(self.todo, self.keys):
            if kind == 'get':
                try:
                    key = r.get_transferrable_key(key.fingerprint)
                    rings.KEEP.append(key)
                    self.results.append(rings.pairs(key))
                except KeyError:
                    self.results.append(None)
            elif kind == 'keys':
                self.results.append(sorted(r.keys()))
            elif kind == 'all':
                keys = list(r.values())
                rings.KEEP.extend(keys)
                self.results.append([rings.pairs(k) for k in keys])
            else:
                f = {'add': r.add_transferrable_key,
                     'update': r.update_transferrable_key,
                     'delete': r.delete_transferrable_key}[kind]
                self.results.append(not refuses(self.sx, lambda: f(key)))


def orders(counts):
    """All ways to put the operations of all actors into one row."""
    if not any(counts):
        return [[]]
    out = []
    for i, c in enumerate(counts):
        if c:
            left = list(counts)
            left[i] -= 1
            out += [[i] + rest for rest in orders(left)]
    return out


def outcome(sx, model, actors, order):
    """What the operations give and leave, one after the other."""
    model = dict(model)
    at = [0] * len(actors)
    ok = []
    for i in order:
        a = actors[i]
        n = at[i]
        at[i] += 1
        kind, which = a.todo[n]
        result = a.results[n]
        if kind == 'get':
            if which not in model:
                ok.append(result is None)
            elif result is None:
                return None
            else:
                ok.append(rings.same_packets(sx, result, model[which], False))
        elif kind == 'keys':
            ok.append(result == sorted(
                [rings.identity(sx, k)[0] for k in model]))
        elif kind == 'all':
            if len(result) != len(model):
                return None
            for want in model.values():
                mine = [g for g in result if g[0][0] == want[0][0]
                        and sx.concrete(g[0][1]) == sx.concrete(want[0][1])]
                if len(mine) != 1:
                    return None
                ok.append(rings.same_packets(sx, mine[0], want, False))
        else:
            allowed = (which in model) == (kind != 'add')
            if result != allowed:
                return None
            if allowed and kind == 'delete':
                del model[which]
            elif allowed:
                model[which] = a.packets[n]
    return sx.all(*ok), model


def h_race(sx, start, todos, preemptions, pids, opened=True, shared=False):
    """However they are interleaved, it is as if one came after the other."""
    disk, model = begin(sx, start)
    procs = Procs(sx, disk, [gpg], preemptions)
    actors = []
    for n, todo in enumerate(todos):
        disk.pid = pids[n]
        actors.append(Actor(sx, disk, n, todo, opened,
                            actors[0].ring if shared and n else None))
    disk.pid = 70001
    for n, a in enumerate(actors):
        procs.add(a.run, pids[n])
    procs.run(sx.choose('first', list(range(len(actors)))))
    disk.hook = disk.sleeper = None
    data = disk.get(NAME)
    good = []
    for order in orders([len(t) for t in todos]):
        r = outcome(sx, model, actors, order)
        if r is not None:
            good.append(sx.all(r[0], rings.file_is(sx, data, r[1])))
    sx.check(sx.either(*good) if good else False, 'as if in a row')
    # nobody holds the keyring any more
    disk.pid = 70009
    disk.alive.append(70009)
    r = gpg.get_resource(disk.path(NAME))
    before = rings.groups(data)
    sx.check(len(list(r.keys())) == len(before), 'usable')
    key = rings.key_of(rings.material(sx, 'C', 'last'))
    r.add_transferrable_key(key)
    after = rings.groups(disk.get(NAME))
    sx.check(len(after) == len(before) + 1, 'goes on')
    sx.reach('race')


# --- cases ---
def cases(tier):
    thorough = tier != 'quick'
    out = []
    two = [('AB', [[['add', 'D']], [['delete', 'A']]]),
           ('ABD', [[['update', 'A']], [['delete', 'B']]]),
           ('AB', [[['add', 'D']], [['add', 'D']]]),
           ('ABD', [[['get', 'B']], [['delete', 'A']]]),
           ('ABD', [[['update', 'B']], [['keys', 'A'], ['get', 'B']]]),
           ('ABD', [[['delete', 'B']], [['all', 'A']]]),
           ('A', [[['add', 'B']], [['add', 'D']]])]
    opts = dict(deadline_s=60)
    for start, todos in two:
        for same in (False, True):
            if todos[1][0][0] == 'all' and not thorough and same:
                continue
            if same and not thorough and len(start) < 3:
                continue
            out.append(('h_race', dict(
                start=start, todos=todos, preemptions=3 if thorough else 2,
                pids=[70001, 70001 if same else 70002]),
                dict(deadline_s=300 if thorough else 90)))
    out.append(('h_race', dict(start='AB', todos=two[0][1], preemptions=1,
                               pids=[70001, 70002], opened=False), opts))
    out.append(('h_race', dict(
        start='AB', todos=[[['add', 'D']], [['delete', 'A']],
                           [['update', 'B']]],
        preemptions=2 if thorough else 1, pids=[70001, 70002, 70003]),
        dict(deadline_s=300 if thorough else 120)))
    out.append(('h_race', dict(
        start='AB', todos=[[['add', 'D'], ['delete', 'A']],
                           [['update', 'B'], ['keys', 'A']]],
        preemptions=2 if thorough else 1, pids=[70001, 70002]),
        dict(deadline_s=300 if thorough else 60)))
    for start, todos in two[1:] if thorough else two[3:5]:
        out.append(('h_race', dict(
            start=start, todos=todos, preemptions=3 if thorough else 2,
            pids=[70001, 70001], shared=True),
            dict(deadline_s=300 if thorough else 90)))
    return out
