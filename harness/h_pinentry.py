"""Asking for passphrases: gpg-agent and the terminal."""
import getpass as std_getpass
import os
import socket
from urllib.parse import unquote_to_bytes
from pgp.pinentry import getpass as terminal
from pgp.pinentry import gpg_agent
from hlib.util import refuses


class Blocked(BaseException):
    """Somebody would wait forever."""


class Agent(object):
    """What gpg-agent does with the commands."""

    def __init__(self, sx, entered, how=None):
        self.sx = sx
        self.entered = list(entered)     # what the user enters, in turn
        self.how = how or {}
        self.cache = {}
        self.asked = []
        self.open = []
        self.paths = []
        self.n = 0

    def welcome(self):
        return self.how.get('welcome', b'OK Pleased to meet you\n')

    def escape(self, text):
        out = b''
        everything = self.how.get('escape') == 'all'
        lower = self.how.get('escape') == 'lower'
        for b in bytearray(text.encode('utf-8')):
            if everything or lower or b in (0x25, 0x0a, 0x0d):
                digits = b'0123456789abcdef' if lower \
                    else b'0123456789ABCDEF'
                h, l = b >> 4, b & 15
                out += b'%' + nibble(h, digits) + nibble(l, digits)
            else:
                out += bytes([b])
        return out

    def answer(self, line):
        words = line.decode('latin-1').split(' ')
        if words[0] == 'CLEAR_PASSPHRASE':
            for cid in [w for w in words[1:] if w[:2] != '--']:
                self.cache = dict((k, v) for k, v in self.cache.items()
                                  if k != cid)
            return self.how.get('cleared', b'OK\n')
        if words[0] != 'GET_PASSPHRASE':
            return b'ERR 67109139 Unknown IPC command <GPG Agent>\n'
        options = [w for w in words[1:] if w[:2] == '--']
        args = [w for w in words[1:] if w[:2] != '--']
        while len(args) < 4:
            args.append('X')
        cid = None if args[0] == 'X' else args[0]
        if cid is not None and cid in self.cache:
            text = self.cache[cid]
        elif '--no-ask' in options:
            return b'ERR 67108922 No data <GPG Agent>\n'
        else:
            self.asked.append((sorted(options), [
                None if a == 'X' else unquote_to_bytes(
                    a.replace('+', ' ')).decode('utf-8')
                for a in args]))
            text = self.entered.pop(0)
            if cid is not None:
                self.cache[cid] = text
        if self.how.get('error'):
            return b'ERR 83886179 Operation cancelled <Pinentry>\n'
        data = self.escape(text)
        lines = b''
        before = self.how.get('before', b'')
        cut = self.how.get('cut', 1000)
        if len(data):
            while len(data):
                lines += b'D ' + data[:cut] + b'\n'
                data = data[cut:]
        elif self.how.get('empty line'):
            lines = b'D \n'
        return before + lines + self.how.get('after', b'') \
            + self.how.get('ok', b'OK\n')


def nibble(v, digits):
    return bytes([48 + v]) if v < 10 else bytes([digits[10] + v - 10])


class Socket(object):

    agent = None

    def __init__(self, *args, **kw):
        self.closed = False
        self.incoming = b''
        self.outgoing = b''
        self.left = self.agent.how.get('dies')
        self.agent.open.append(self)

    def connect(self, path):
        self.agent.paths.append(path)
        if self.agent.how.get('refused'):
            raise OSError(111, 'Connection refused')
        self.outgoing = self.agent.welcome()

    def settimeout(self, t):
        pass

    def sendall(self, data):
        if self.closed:
            raise OSError(9, 'Bad file descriptor')
        self.incoming += data
        while b'\n' in self.incoming:
            line, _nl, self.incoming = self.incoming.partition(b'\n')
            self.outgoing += self.agent.answer(line)

    def send(self, data):
        # As much as there is room for
        data = data[:self.agent.how.get('room', 7)]
        self.sendall(data)
        return len(data)

    def recv(self, n, flags=0):
        if self.closed:
            raise OSError(9, 'Bad file descriptor')
        n = min(n, self.agent.how.get('chunk', 1000))
        if self.left is not None:
            n = min(n, self.left)
            if n == 0:
                return b''
        if not len(self.outgoing):
            if self.left is not None:
                return b''
            raise Blocked()
        out, self.outgoing = self.outgoing[:n], self.outgoing[n:]
        if self.left is not None:
            self.left -= len(out)
        return out

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def makefile(self, *args, **kw):
        return Lines(self)


class Lines(object):

    def __init__(self, sock):
        self.sock = sock

    def readline(self, *args):
        out = b''
        while out[-1:] != b'\n':
            c = self.sock.recv(1)
            if not c:
                break
            out += c
        return out

    def __iter__(self):
        while True:
            line = self.readline()
            if not line:
                return
            yield line

    def write(self, data):
        self.sock.sendall(data)

    def flush(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass


def begin(sx, entered, how=None):
    agent = Agent(sx, entered, how)
    sx.patch(Socket, 'agent', agent)
    sx.patch(socket, 'socket', Socket)
    return agent


def octets(how):
    return dict((k, v.encode('latin-1') if hasattr(v, 'encode')
                 and k != 'escape' else v) for k, v in how.items())


def phrase(sx, name, n, kind):
    ranges = {'ascii': (0, 127), 'letters': (0x20, 0x7e),
              'latin': (0x80, 0x7ff), 'wide': (0x800, 0xd7ff),
              'far': (0x10000, 0x10ffff)}
    if n > 8:
        # fixed but for some
        start = u'correct %horse\n battery\rstaple+ '
        text = (start * (n // len(start) + 1))[:n]
        for i, at in enumerate((n // 2, n - 1)):
            text = text[:at] + sx.text(name + '.%d' % i, 1, *ranges[kind]) \
                + text[at + 1:]
        return text
    return sx.text(name, n, *ranges[kind])


def h_entered(sx, n, kind, how):
    """What is returned is what was entered."""
    text = phrase(sx, 'p', n, kind) if n else ''
    agent = begin(sx, [text], octets(how))
    p = gpg_agent.GPGAgentPinentry(socket_path='/nonexistent/agent')
    try:
        got = p.get_passphrase('Prompt', 'Error', 'Description', 'id')
    except Blocked:
        sx.fail('waits forever')
    sx.check(sx.eq(got, text), 'passphrase')
    sx.check(agent.paths == ['/nonexistent/agent'], 'the agent')
    sx.check(all(s.closed for s in agent.open), 'closed')
    sx.reach('entered')


def h_request(sx, which, n):
    """The agent is asked with the texts and options given."""
    texts = [None, None, None, None]
    for i in which:
        texts[i] = sx.text('t%d' % i, 1, 0x59, 0x7ff) if i > 0 or n > 1 \
            else sx.text('t%d' % i, 1, 0x61, 0x7a)
        if n > 8:
            texts[i] += (u'Enter the passphrase +10% for\n"Me" <a@b> '
                         * (n // 40 + 1))[:n]
        for j in range(1, n) if n < 9 else ():
            texts[i] = texts[i] + sx.text('t%d.%d' % (i, j), 1, 0, 0x7f)
    cid, error, prompt, description = texts
    repeat = sx.choose('repeat', [0, 1, 2, 3])
    quality = sx.bool('qualitybar')
    agent = begin(sx, ['secret'])
    p = gpg_agent.GPGAgentPinentry(socket_path='/nonexistent/agent')
    try:
        got = p.get_passphrase(
            prompt=prompt, error_message=error, description=description,
            cache_id=cid, qualitybar=quality, repeat=repeat)
    except Blocked:
        sx.fail('waits forever')
    sx.check(got == 'secret', 'passphrase')
    sx.check(len(agent.asked) == 1, 'asked once')
    options, args = agent.asked[0]
    want = ['--data']
    if quality:
        want.append('--qualitybar')
    sx.check([o for o in options if o[:8] != '--repeat'] == want, 'options')
    sx.check([o for o in options if o[:8] == '--repeat'] in {
        0: [[], ['--repeat=0']], 1: [['--repeat'], ['--repeat=1']],
        2: [['--repeat=2']], 3: [['--repeat=3']]}[repeat], 'repeat')
    sx.check(len(args) == 4, 'number of texts')
    for got, want in zip(args, texts):
        sx.check((got is None) == (want is None)
                 and (want is None or sx.eq(got, want)), 'texts')
    sx.reach('request')


def h_trouble(sx, how, n=1):
    """Errors and lost connections are errors."""
    text = phrase(sx, 'p', n, 'ascii')
    agent = begin(sx, [text], octets(how))
    p = gpg_agent.GPGAgentPinentry(socket_path='/nonexistent/agent')
    try:
        sx.check(refuses(sx, lambda: p.get_passphrase(cache_id='id')),
                 'refused')
    except Blocked:
        sx.fail('waits forever')
    sx.check(all(s.closed for s in agent.open), 'closed')
    sx.reach('trouble')


def h_dies(sx, when):
    """The connection is lost after any octet."""
    text = 'p\xe4%d'
    whole = len(b'OK Pleased to meet you\n') + len(b'D p\xc3\xa4%25d\nOK\n')
    cut = sx.choose('dies', [i for i in range(whole) if i % 3 == when])
    agent = begin(sx, [text], dict(dies=cut))
    p = gpg_agent.GPGAgentPinentry(socket_path='/nonexistent/agent')
    try:
        sx.check(refuses(sx, p.get_passphrase), 'refused')
    except Blocked:
        sx.fail('waits forever')
    sx.check(all(s.closed for s in agent.open), 'closed')
    sx.reach('dies')


class Terminal(object):

    def __init__(self, sx, entered):
        self.sx = sx
        self.entered = entered
        self.count = 0
        self.log = []

    def getpass(self, prompt='Password: ', stream=None):
        if not self.entered:
            raise Blocked()
        self.count += 1
        return self.entered.pop(0)

    def write(self, text):
        self.log.append(text)

    def flush(self):
        pass


def at_terminal(sx, entered):
    t = Terminal(sx, entered)
    sx.patch(std_getpass, 'getpass', t.getpass)
    if callable(getattr(terminal, 'getpass', None)):
        sx.patch(terminal, 'getpass', t.getpass)
    return t


def h_history(sx, how, ops):
    """Remembered under their IDs, when wanted, until forgotten."""
    phrases = [sx.text('p%d' % i, 1, 0x21, 0x7e) for i in range(len(ops))]
    for i in range(len(phrases)):
        for j in range(i):
            sx.assume(phrases[i] != phrases[j])
    entered = list(phrases)
    if how == 'agent':
        begin(sx, entered)
        made = [gpg_agent.GPGAgentPinentry(socket_path='/nonexistent/agent')
                for _ in range(2)]
        # the agent remembers for all
        which = [sx.choose('object%d' % i, [0, 1])
                 for i in range(len(ops))]
        extra = {}
    else:
        t = at_terminal(sx, entered)
        made = [terminal.GetPassPinentry()]
        which = [0] * len(ops)
        extra = dict(stream=t)
    model = {}
    queue = list(phrases)
    for i, kind in enumerate(ops):
        p = made[which[i]]
        cid = sx.choose('id%d' % i, ['a', 'b'])
        try:
            if kind == 'clear':
                p.clear_passphrase(cid)
                model.pop(cid, None)
            elif kind == 'no ask':
                if cid in model:
                    sx.check(sx.eq(p.get_passphrase(
                        cache_id=cid, no_ask=True, **extra), model[cid]),
                        'remembered')
                else:
                    sx.check(refuses(sx, lambda: p.get_passphrase(
                        cache_id=cid, no_ask=True, **extra)), 'not asked')
            elif kind == 'get':
                if cid not in model:
                    model[cid] = queue.pop(0)
                sx.check(sx.eq(p.get_passphrase(
                    cache_id=cid, **extra), model[cid]), 'the right one')
            elif kind == 'fresh':
                want = queue.pop(0)
                sx.check(sx.eq(p.get_passphrase(
                    cache_id=cid, use_cache=False, **extra), want),
                    'asked afresh')
            else:
                want = queue.pop(0)
                sx.check(sx.eq(p.get_passphrase(**extra), want),
                         'asked without ID')
        except Blocked:
            sx.fail('asked once too often')
    sx.reach('history')


def h_terminal(sx, n, repeat, texts, more):
    """Only what was entered the same way each time is taken."""
    rounds = more + 1
    words = [[sx.text('p%d.%d' % (i, j), n, 0x20, 0x7f)
              for j in range(repeat + 1)] for i in range(rounds)]
    # the last round agrees
    words[-1] = [words[-1][0]] * (repeat + 1)
    want = None
    for w in words:
        if want is None and sx.all(*[x == w[0] for x in w[1:]]):
            want = w[0]
    t = at_terminal(sx, [x for w in words for x in w])
    p = terminal.GetPassPinentry()
    kw = {}
    names = ['prompt', 'error_message', 'description']
    for name, given in zip(names, texts):
        if given is not None:
            kw[name] = given
    try:
        got = p.get_passphrase(repeat=repeat, stream=t, **kw)
    except Blocked:
        sx.fail('asked once too often')
    sx.check(sx.eq(got, want), 'passphrase')
    shown = ''.join([x for x in t.log])
    for given in texts:
        if given not in (None, 'X'):
            sx.check(given in shown, 'shown')
    if texts[1] is None and t.count == repeat + 1:
        sx.check('rror' not in shown and 'match' not in shown, 'no error')
    sx.reach('terminal')


def h_where(sx, value, path):
    """The agent is found where the environment says."""
    agent = begin(sx, ['x'])
    old = os.environ.get('GPG_AGENT_INFO')
    os.environ['GPG_AGENT_INFO'] = value
    try:
        got = gpg_agent.GPGAgentPinentry().get_passphrase()
    finally:
        if old is None:
            del os.environ['GPG_AGENT_INFO']
        else:
            os.environ['GPG_AGENT_INFO'] = old
    sx.check(got == 'x', 'passphrase')
    sx.check(agent.paths == [path], 'path')
    sx.reach('where')


# --- cases ---
def cases(tier):
    thorough = tier != 'quick'
    out = []
    for kind in ('ascii', 'latin', 'wide', 'far'):
        for esc in ('minimal', 'all', 'lower'):
            n = (3 if thorough else 2) if kind == 'ascii' else 1
            out.append(('h_entered', dict(n=n, kind=kind,
                                          how=dict(escape=esc))))
    for n in (0, 1, 3) if not thorough else (0, 1, 3, 5):
        for how in (dict(before='S PROGRESS x 1\n'),
                    dict(before='# a comment\n', ok='OK closing\n'),
                    dict(after='S PROGRESS x 1\n', chunk=3),
                    dict(welcome='# x\nOK\n', chunk=1),
                    dict(cut=1), dict(cut=2, escape='all'),
                    dict(chunk=5, room=1), {'empty line': True}):
            out.append(('h_entered', dict(n=n, kind='letters', how=how)))
    for which in ([], [0], [1], [2], [3], [0, 1], [2, 3]) + (
            ([1, 2, 3],) if thorough else ()):
        out.append(('h_request', dict(which=which, n=1)))
    for which in ([0], [1], [2], [3]):
        out.append(('h_request', dict(which=which,
                                      n=3 if thorough else 2)))
    for how in (dict(error=True), dict(refused=True),
                dict(error=True, before='S x\n'),
                dict(welcome='ERR 67109139 no\n')):
        out.append(('h_trouble', dict(how=how)))
    for n, how in ((40, {}), (130, dict(chunk=64)), (300, {}),
                   (300, dict(cut=100, after='S PROGRESS x 1\n')),
                   (1100, {}), (1100, dict(escape='all', cut=900)),
                   (2500, {})):
        out.append(('h_entered', dict(n=n, kind='latin' if n == 300 else
                                      'letters', how=how)))
    for n in (40, 200):
        out.append(('h_request', dict(which=[n % 3 + 1], n=n)))
    for when in range(3):
        out.append(('h_dies', dict(when=when)))
    sequences = [['get', 'get', 'clear', 'get'],
                 ['get', 'fresh', 'get'], ['fresh', 'no ask', 'get'],
                 ['get', 'clear', 'no ask'], ['get', 'none', 'no ask'],
                 ['none', 'fresh', 'get'], ['clear', 'get', 'no ask'],
                 ['get', 'get', 'get']]
    if thorough:
        kinds = ['get', 'clear', 'fresh', 'no ask', 'none']
        sequences = sequences[:1] + [
            [a, b, c] for a in kinds for b in kinds for c in kinds]
    for how in ('agent', 'terminal'):
        for ops in sequences:
            out.append(('h_history', dict(how=how, ops=ops)))
    for repeat in (0, 1, 2):
        for more in (0, 1, 2) if repeat < 2 else (0, 1):
            out.append(('h_terminal', dict(
                n=1, repeat=repeat, texts=[None, None, None],
                more=more if repeat else 0)))
    for texts in (['P?', None, None], [None, 'E!', 'D'], ['X', 'X', 'X']):
        out.append(('h_terminal', dict(n=2, repeat=1, texts=texts, more=1)))
    for value, path in (('/a/b:12:1', '/a/b'), ('/a/b', '/a/b')):
        out.append(('h_where', dict(value=value, path=path)))
    return out
