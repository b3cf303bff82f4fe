"""Scripts of environment events for the client: from behaviours of the specification, and seeded random ones."""
import itertools, json, os, random, re, string
from common import *
from gen_wire import ODD

ACK = ':tmi.twitch.tv CAP * ACK :twitch.tv/commands twitch.tv/tags twitch.tv/membership'
WELCOME = ':tmi.twitch.tv 001 bob :Welcome, GLHF!'
FIRST = [ACK, ':tmi.twitch.tv CAP * NAK :twitch.tv/foo', ':tmi.twitch.tv CAP * LS :twitch.tv/tags', ':tmi.twitch.tv CAP', 'CAP * ACK',
         ':tmi.twitch.tv CAP * ACKNOWLEDGED :x', ':tmi.twitch.tv CAP bob ACK :x', ':tmi.twitch.tv CAP  * ACK :x', 'cap * ACK :x',
         ':tmi.twitch.tv CAP :* ACK', ':tmi.twitch.tv CAP #a * ACK :x', '@a=b :t CAP * ACK :x',
         ':tmi.twitch.tv NOTICE * :Login authentication failed', WELCOME, 'PING :tmi.twitch.tv', 'RECONNECT',
         ':tmi.twitch.tv 421 you FOO :Unknown command', '', ' ', ':x ', '@a=b ']
SECOND = [WELCOME, ':tmi.twitch.tv 001', '001', ':tmi.twitch.tv 002 bob :Your host', ':tmi.twitch.tv NOTICE * :Login authentication failed',
          ':tmi.twitch.tv NOTICE * :login Authentication Failed', ':tmi.twitch.tv NOTICE * :authentication failed!', 'NOTICE authentication failed',
          ':tmi.twitch.tv NOTICE * :Improperly formatted auth', ':tmi.twitch.tv NOTICE * :Login unsuccessful', ':tmi.twitch.tv NOTICE',
          '@msg-id=authentication failed :t NOTICE * :x', ':tmi.twitch.tv NOTICE #c :authentication failed', ':tmi.twitch.tv PRIVMSG #c :authentication failed',
          ACK, 'PING :tmi.twitch.tv', ':tmi.twitch.tv 0011 bob :x', '', ' ', 'RECONNECT']
# not Interrupted: it is no error, but asks to try again
ERRS = ['ConnectionReset', 'ConnectionAborted', 'UnexpectedEof', 'TimedOut', 'BrokenPipe', 'NotConnected', 'InvalidData', 'Other',
        'ConnectionRefused', 'PermissionDenied', 'WriteZero', 'InvalidInput', 'AddrInUse', 'OutOfMemory', 'Unsupported']
OPEN_ERRS = ['ConnectionRefused', 'ConnectionReset', 'TimedOut', 'NotFound', 'Other', 'InvalidData', 'UnexpectedEof', 'HostUnreachable',
             'PermissionDenied', 'AddrNotAvailable', 'NetworkUnreachable', 'ConnectionAborted', 'BrokenPipe', 'Interrupted']
LINES = [':a!a@a.tmi.twitch.tv PRIVMSG #c :hi', 'PING :tmi.twitch.tv', ':tmi.twitch.tv RECONNECT', '@id=1;x=\\s :a!b@c PRIVMSG #d :\u0001ACTION yo\u0001',
         ':tmi.twitch.tv 376 a :>', 'X', 'PING', '@emote-only=0 :t ROOMSTATE #c', ':a!a@a PRIVMSG #c :\u00e9\u4f60\U0001f600', '\u00e9', 'a b c d',
         ':a!a@a PRIVMSG #c :tail\r', '\rX', 'A\rB', ':t NOTICE * :Login authentication failed', ACK, WELCOME]
BAD_LINES = ['', ' ', ':', ':x', ':x ', '@a=b ', '@a=b :x ', '  ', '\r']
TEXTS = ['hi', '', ' ', 'a b', ':x', '\u00e9\U0001f600', 'x' * 500, '\u0001ACTION a\u0001', 'a;b\\c', '#', 'a\tb', '\u2028', '\u0085', '/me x', 'x\u0000y',
         ' lead', 'trail ', '@a=b PING', 'x' * 5000]
BREAKS = ['\n', '\r', '\r\n', 'a\nb', 'a\r\nQUIT\r\n', 'a\r', '\nb', 'a\r\n', '\u00e9\n']
CHANNELS = ['#c', 'c', '#', '', '##c', '#\u00e9', 'a#b', '#c,#d', ' #c', '#c ', '@c', ':c', '#x' * 200]
IDS = ['abc', '', 'a b', 'a;b', 'a\\b', '\\', '\\s', 'a\nb', 'a\r\nb', ';;', '  ', 'a=b', '\u00e9', '\\:', ' \\;\r\n', 'x' * 300, '\u2e1d', ':', 'a\\\\sb',
       'b34ccfc7-4977-403a-8a94-33c6bac34fb8', '\n', '=', '@']


def odd(rng, pool):
    """One of the pool with an odd character before, behind or within."""
    t = rng.choice(pool)
    i = rng.choice([0, len(t), rng.randint(0, len(t))])
    return t[:i] + rng.choice(ODD) + t[i:]


def token(rng):
    return ''.join(rng.choice(string.ascii_lowercase + string.digits) for _ in range(30))


class Script:
    def __init__(self, calls=None, via=None, secret=None):
        self.d = {'how': {'via': 'anonymous'} if via else {'calls': calls or []}, 'steps': []}
        if secret:
            self.d['secret'] = secret

    def __call__(self, do, **kw):
        self.d['steps'].append({'do': do, **kw})
        return self

    def poll(self):
        return self('poll')

    def tick(self, ms):
        return self('tick', ms=ms)('poll')

    def rx(self, d, c=0):
        return self('rx', d=d if isinstance(d, str) else list(d), c=c)

    def opened(self):
        return self('openres', k='ok')('poll')

    def replies(self):
        return self.rx(ACK + '\r\n').rx(WELCOME + '\r\n').poll()

    def connected(self):
        return self('call', op='connect').opened().replies()

    def recv(self, n=1):
        for _ in range(n):
            self('call', op='recv')
        return self


def credentials(login='bob', token=None):
    return {'set': 'credentials', 'login': login, 'token': [] if token is None else [token]}


def timeout(ms):
    return {'set': 'timeout', 'timeout': ms}


def backoff(tries, init, mult, most):
    return {'set': 'backoff', 'tries': [] if tries is None else [tries], 'init': init, 'mult': mult, 'max': most}


def pieces(rng, data, most=4):
    """Split bytes somewhere."""
    if isinstance(data, str):
        data = data.encode()
    n = rng.randint(0, most)
    cuts = sorted(rng.randint(0, len(data)) for _ in range(n))
    return [p for p in (data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])) if p]


# ------------------------------------------------------------ behaviours of the specification

UNIT = 2500   # one tick; the reply timeout of the model is 2 of them
LETTERS = {1: ACK.encode(), 2: b':tmi.twitch.tv CAP * NAK :x', 3: WELCOME.encode(), 4: b':tmi.twitch.tv NOTICE * :Login authentication failed',
           5: b':tmi.twitch.tv NOTICE * :Improperly formatted auth', 6: b'PING :x', 7: b'\xff', 8: b' ', 9: b'A', 10: b'\n', 13: b'\r'}


def behaviours(model, rng, limit):
    """Shortest histories to every transition of the environment, those that are not part of another."""
    r = tlc('Models', cfg=model, name=model, workers=4, heap='8g', timeout=600)
    hs = {}
    for m in re.finditer(r'"BEHAVIOUR (.*)"\n', r.out):
        b = json.loads(m[1].replace('\\"', '"').replace('\\\\', '\\'))
        key = json.dumps(b['cfg'], sort_keys=True)
        hs.setdefault(key, {})[tuple(json.dumps(e, sort_keys=True) for e in b['h'])] = b['cfg']
    out = []
    total = 0
    for per in hs.values():
        total += len(per)
        inner = {h[:-1] for h in per}
        out += [(cfg, [json.loads(e) for e in h]) for h, cfg in per.items() if h not in inner]
    out.sort(key=lambda x: json.dumps(x))
    leaves = len(out)
    if len(out) > limit:
        out = rng.sample(out, limit)
    log(f'{model}: {total} behaviours, {leaves} maximal, {len(out)} replayed')
    return r, total, out


def concrete(cfg, h, rng, prompt=True, secret=None):
    """The script for one behaviour of a model."""
    t = secret or token(rng)
    calls = [credentials('bob', rng.choice(['', 'oauth:']) + t), timeout(cfg['timeout'] * UNIT),
             backoff(cfg['tries'][0] if cfg['tries'] else None, cfg['init'] * UNIT, cfg['mult'], cfg['max'] * UNIT)]
    rng.shuffle(calls)
    s = Script(calls, secret=t)
    for e in h:
        k = e['e']
        if k == 'call':
            op = e['op']
            if op == 'send':
                n = len(e['data'])
                s('call', **rng.choice([
                    dict(op='privmsg', channel='#c', text='x' * (n * rng.choice([1, 20])), reply=[], nonce=[]),
                    dict(op='privmsg', channel='#c', text='hi', reply=['a b'], nonce=['n']),
                    dict(op='ping', nonce='n'), dict(op='join', channel='c'), dict(op='join_all', channels=['a', '#b']),
                    dict(op='send_raw', data='RAW %d\r\n' % n), dict(op='pong', line='PING :x', how='owned')]))
            elif op == 'refused':
                s('call', **rng.choice([dict(op='send_raw', data='RAW'), dict(op='send_raw', data='RAW\n'), dict(op='ping', nonce='a\r\nb'),
                                        dict(op='privmsg', channel='#c', text='a\nb', reply=[], nonce=[]), dict(op='join', channel='a\r')]))
            else:
                s('call', op=op)
        elif k == 'rx':
            s.rx(b''.join(LETTERS[x] for x in e['d']), e['c'])
        elif k == 'win':
            s('win', c=e['c'], n=e['n'] if e['n'] <= 0 else e['n'] * rng.choice([1, 3, 20, 60]))
        elif k == 'tick':
            s('tick', ms=e['ms'] * UNIT)
        else:
            s(k, **{x: y for x, y in e.items() if x != 'e'})
        if prompt and k != 'poll':
            s.poll()
    return s


def finish_session(s, rng):
    """After any history a further reconnect must be clean."""
    s('cancel')('call', op='reconnect')
    for _ in range(2):
        s.tick(UNIT)
    s.opened()
    for p in pieces(rng, ACK + '\r\n' + WELCOME + '\r\nTHEN :x\r\n', 2):
        s.rx(p).poll()
    s.recv(2).rx('LAST\r\n').poll()('cancel')
    s('call', op='ping', nonce='end')('call', op='privmsg', channel='#c', text='end', reply=[], nonce=[])
    return s


def from_model(model, rng, limit):
    r, total, bs = behaviours(model, rng, limit)
    out = []
    for cfg, h in bs:
        s = concrete(cfg, h, rng)
        if model.startswith('Session'):
            finish_session(s, rng)
        elif model.startswith('Stream'):
            s.recv(2)('eof').poll().recv(3)
        elif model.startswith('Send'):
            s('gate', open=True)('win', n=-1).poll()('call', op='ping', nonce='end')('cancel')
        elif model.startswith('Connect'):
            for _ in range(3):
                s.tick(UNIT)
        else:
            s.tick(UNIT - 1).tick(1).tick(UNIT)
        out.append(s)
    return r, total, out


# ------------------------------------------------------------ random scripts

def some_cfg(rng, secret=None, quick=True):
    calls = []
    if rng.random() < .8:
        t = secret or token(rng)
        calls.append(credentials(rng.choice(['bob', 'a', 'x' * 25, 'justinfan1', '\u00e9', 'Bob B']), rng.choice([t, 'oauth:' + t])))
    if rng.random() < .8:
        calls.append(timeout(rng.choice([0, 1, 500, 4999, 5000, 5001, 7000, 30000, 100000])))
    if rng.random() < .8:
        calls.append(some_backoff(rng))
    return calls


def some_backoff(rng):
    return backoff(rng.choice([None, 0, 1, 2, 3, 5, 8]), rng.choice([0, 1, 10, 1000, 20000, 60000]), rng.choice([0, 1, 2, 3, 10, 2000000000]),
                   rng.choice([0, 1, 100, 1000, 12000, 60000, 100000]))


def cfg_of(calls):
    c = dict(timeout=30000, tries=8, init=1000, mult=3, max=12000)
    for x in calls:
        if x['set'] == 'timeout':
            c['timeout'] = x['timeout']
        elif x['set'] == 'backoff':
            c.update(tries=x['tries'][0] if x['tries'] else None, init=x['init'], mult=x['mult'], max=x['max'])
    return c


def some_send(rng, wide=True):
    pick = lambda pool: rng.choice(pool)
    def text():
        r = rng.random()
        if wide and r < .15:
            return pick(BREAKS)
        if r < .6:
            return pick(TEXTS)
        if r < .75:
            return odd(rng, TEXTS) if wide else 'a' + pick(TEXTS)
        return ''.join(pick('ab;\\ :#@=\u00e9,\t') for _ in range(rng.randint(0, 12)))
    def ident():
        return odd(rng, IDS) if wide and rng.random() < .2 else pick(IDS) if rng.random() < .6 else ''.join(pick('ab;\\ :sn\r\n=\u00e9') for _ in range(rng.randint(0, 8)))
    def channel():
        return pick(CHANNELS) if not wide or rng.random() < .8 else odd(rng, CHANNELS) if rng.random() < .6 else pick(BREAKS)
    opt = lambda f: [f()] if rng.random() < .5 else []
    k = rng.randrange(6)
    if k == 0 or k == 5:
        return dict(op='privmsg', channel=channel(), text=text(), reply=opt(ident), nonce=opt(ident), nonce_first=rng.random() < .5, shape=rng.randrange(4))
    if k == 1:
        return dict(op='ping', nonce=text())
    if k == 2:
        return dict(op='join', channel=channel(), shape=rng.randrange(4))
    if k == 3:
        return dict(op='join_all', channels=[channel() for _ in range(rng.choice([1, 1, 2, 3, 5, 30]))], shape=rng.randrange(4))
    return dict(op='send_raw', data=text() + pick(['\r\n', '\r\n', '\r\n', '', '\n', '\r', '\n\r', '\r\n ', 'A\r\nB\r\n']))


def attempt(s, rng, cfg):
    """What happens to one attempt to connect, from the moment it opens."""
    T = cfg['timeout']
    r = rng.random()
    if r < .15:
        s('openres', k=rng.choice(OPEN_ERRS)).poll()
        return
    if r < .22:
        s.tick(max(0, T - 1)).tick(1)
        return
    if rng.random() < .3:
        s.tick(rng.choice([1, T // 2, max(0, T - 1)]))
    s('openres', k='ok')
    if rng.random() < .3:
        s('win', n=rng.choice([0, 1, 10, 66, 67, 68, 100]))
    if rng.random() < .1:
        s('gate', open=False)
    r = rng.random()
    if r < .1:
        s('werr', k=rng.choice(ERRS))
    elif r < .15:
        s('ferr', k=rng.choice([e for e in ERRS if e != 'WriteZero']))
    s.poll()
    for _ in range(rng.choice([0, 0, 1, 3])):
        s('win', n=rng.choice([1, 5, 50]))
        if rng.random() < .8:
            s.poll()
    if rng.random() < .05:
        s('werr', k=rng.choice(ERRS)).poll()
    if rng.random() < .9:
        s('win', n=-1)('gate', open=True).poll()
    good = rng.random() < .6
    first = ACK if good or rng.random() < .3 else rng.choice(FIRST)
    second = WELCOME if good else rng.choice(SECOND)
    end = lambda: rng.choice(['\r\n', '\r\n', '\n'])
    data = (first + end() + second + end()).encode()
    if not good and rng.random() < .15:
        data = data[:rng.randint(0, len(data))]
    if not good and rng.random() < .1:
        at = rng.randint(0, len(data))
        data = data[:at] + rng.choice([b'\xff', b'\xc3', b'\xed\xa0\x80']) + data[at:]
    if rng.random() < .3:
        data += rng.choice(LINES).encode() + b'\r\n'
    for p in pieces(rng, data, rng.choice([0, 0, 1, 2, 5])):
        s.rx(p)
        if rng.random() < .2:
            s('tick', ms=rng.choice([1, 100, 2500, 4999, 5000]))
        if rng.random() < .8:
            s.poll()
    s.poll()
    if not good and rng.random() < .6:
        if rng.random() < .5:
            s('eof').poll()
        elif data.endswith(b'\n'):
            s('rerr', k=rng.choice(ERRS)).poll()
    if not good:
        for ms in rng.sample([1, 4999, 5000, 5001, max(0, T - 1), T, 100], 3):
            s.tick(ms)


def odd_credentials(rng):
    """Logins and tokens with odd characters at either end and within."""
    out = []
    for c in ODD:
        for i, (login, t) in enumerate([(c + 'bob', token(rng)), ('bob' + c, token(rng)), ('b' + c + 'b', token(rng)), ('bob', c + token(rng)),
                                        ('bob', token(rng) + c), ('bob', 'ab' + c + token(rng)), ('bob', 'oauth:' + token(rng) + c),
                                        ('bob', 'oauth:' + c + token(rng)), ('bob', 'oauth' + c + token(rng))]):
            out.append(Script([credentials(login, t)])('call', op='connect').opened())
    for login in ('Bob', 'BOB', 'justinfan', 'JustinFan12', 'anonymous', 'oauth:bob', 'guest'):
        for t in (None, 'x1y2'):
            out.append(Script([credentials(login, t)])('call', op='connect').opened())
    return out


def handshakes(rng, n):
    """C15, C17: connecting."""
    out = []
    for first, second in itertools.product([ACK] + FIRST[:3], SECOND):
        s = Script([credentials('bob', 'oauth:' + token(rng))])('call', op='connect').opened()
        s.rx(first + '\r\n').poll().rx(second + '\r\n').poll().tick(5000)
        out.append(s)
    deny = ':tmi.twitch.tv NOTICE * :Login authentication failed'
    more = [(odd(rng, [ACK]), WELCOME) for _ in range(400)] + [(ACK, odd(rng, [WELCOME])) for _ in range(300)] + [(ACK, odd(rng, [deny])) for _ in range(400)]
    more += [(ACK[:i] + ACK[i + 1:], WELCOME) for i in range(len(ACK))] + [(ACK, WELCOME[:i] + WELCOME[i + 1:]) for i in range(len(WELCOME))]
    more += [(ACK, deny[:i] + deny[i + 1:]) for i in range(len(deny))] + [(ACK, deny[:i] + deny[i].swapcase() + deny[i + 1:]) for i in range(len(deny))]
    for first, second in more:
        s = Script([credentials('bob', 'oauth:' + token(rng))])('call', op='connect').opened()
        s.rx(first + '\r\n').poll().rx(second + '\r\n').poll().recv(1).tick(5000)
        out.append(s)
    for first in FIRST:
        s = Script([credentials('bob', token(rng))])('call', op='connect').opened().rx(first + '\r\n').poll().rx(WELCOME + '\r\n').poll().tick(5000)
        out.append(s)
    for t in ['', 'oauth:', 'oauth', 'OAUTH:x', 'oauth:oauth:x', ' oauth:x', 'a b', '\u00e9', None, 'oauth:' + 'x' * 3000]:
        for login in ['bob', '', '\u00e9', 'x' * 3000]:
            s = Script([credentials(login, t)])('call', op='connect')('openres', k='ok')('win', n=rng.choice([-1, 1, 70, 100])).poll()('win', n=-1).poll()
            out.append(s.replies().recv(1))
    out += odd_credentials(rng)
    # an error or a stall at every byte of the handshake
    for at in range(0, 130):
        for what in ('werr', 'stall', 'ferr', 'zero'):
            s = Script([credentials('bob', 'oauth:' + 'a1b2c3d4e5' * 3), timeout(8000)])('call', op='connect')('openres', k='ok')('win', n=at)
            if what == 'werr':
                s('werr', k=rng.choice(ERRS[:-1])).poll()
            elif what == 'zero':
                s('werr', k='WriteZero').poll()
            elif what == 'ferr':
                if at % 10:
                    continue
                s('win', n=-1)('ferr', k='BrokenPipe').poll()
            else:
                s.poll().tick(7999).tick(1)
            out.append(s)
    # an end of the replies at every byte
    data = (ACK + '\r\n' + WELCOME + '\r\n').encode()
    for at in range(0, len(data) + 1):
        for what in ('eof', 'rerr', 'silent', 'cut'):
            s = Script([credentials('bob', 'a1b2c3d4e5' * 3)])('call', op='connect').opened()
            if at:
                s.rx(data[:at]).poll()
            if what == 'eof':
                s('eof').poll()
            elif what == 'rerr':
                if data[at - 1:at] not in (b'', b'\n'):
                    continue
                s('rerr', k=rng.choice(ERRS)).poll()
            elif what == 'silent':
                s.tick(4999).tick(1).tick(5000)
            else:
                s.rx(data[at:]).poll().recv(1)
            out.append(s)
    while len(out) < n:
        calls = some_cfg(rng)
        s = Script(calls, via=None if calls else rng.choice([None, 'anonymous']))('call', op='connect')
        attempt(s, rng, cfg_of(calls))
        s.recv(1)
        out.append(s)
    return out


def one_shot(s, kind, rng):
    """An attempt with a known outcome."""
    if kind == 'refused':
        s('openres', k=rng.choice(OPEN_ERRS)).poll()
    elif kind == 'broken':
        s('openres', k='ok')('werr', k=rng.choice(ERRS)).poll()
    elif kind == 'half':
        s('openres', k='ok')('win', n=rng.randint(1, 90))('werr', k=rng.choice(ERRS)).poll()
    elif kind == 'flush':
        s('openres', k='ok')('ferr', k='BrokenPipe').poll()
    elif kind == 'hang':
        s.tick(8999).tick(1)
    elif kind == 'mute':
        s.opened().tick(4999).tick(1)
    elif kind == 'muter':
        s.opened().rx(ACK + '\r\n').poll().tick(4999).tick(1)
    elif kind == 'stuck':
        s('openres', k='ok')('win', n=0).poll().tick(8999).tick(1)
    elif kind == 'closed':
        s.opened()('eof').poll()
    elif kind == 'reset':
        s.opened()('rerr', k='ConnectionReset').poll()
    elif kind == 'denied':
        s.opened().rx(ACK + '\r\n:t NOTICE * :Login authentication failed\r\n').poll()
    elif kind == 'notice':
        s.opened().rx(ACK + '\r\n:t NOTICE * :Improperly formatted auth\r\n').poll()
    elif kind == 'nak':
        s.opened().rx(':t CAP * NAK :x\r\n').poll()
    elif kind == 'odd':
        s.opened().rx('PING :x\r\n').poll()
    elif kind == 'junk':
        s.opened().rx(b'\xff\n').poll()
    else:
        s.opened().replies()


SOFT = ['refused', 'broken', 'half', 'flush']
HARD = ['hang', 'mute', 'muter', 'stuck', 'closed', 'reset', 'denied', 'notice', 'nak', 'odd', 'junk', 'good']


def follow(s, cfg, kinds, rng, exact=True):
    """Reconnect with these outcomes, looking just before and at the end of each delay."""
    s('call', op='reconnect')
    delay, tries = cfg['init'], cfg['tries']
    for k in kinds + ['good']:
        if tries == 0:
            break
        if delay > 1 and exact:
            s.tick(delay - 1).tick(1)
        else:
            s.tick(delay)
        one_shot(s, k, rng)
        if k in HARD:
            break
        delay = min(cfg['max'], delay * cfg['mult'])
        tries = None if tries is None else tries - 1
    # nothing more must happen by itself
    s.tick(1).tick(cfg['max'] + 1).tick(60000)


def reconnects(rng, n):
    """C16, C17: reconnecting."""
    out = []
    settings = [(None, 1000, 3, 12000), (8, 1000, 3, 12000), (0, 5, 5, 5), (1, 0, 0, 0), (3, 0, 2, 9), (3, 7, 0, 9), (4, 100, 1, 50), (4, 50, 1, 100),
                (5, 3, 10, 1000000), (9, 1, 2, 100), (12, 1000, 3, 12000), (2, 5000, 2000000000, 7000), (4, 20000, 3, 12000), (3, 100, 2, 0), (40, 1, 1, 1)]
    for st in settings:
        for hard in HARD:
            for soft in (0, 1, 2, 4):
                cfg = dict(zip(('tries', 'init', 'mult', 'max'), st), timeout=9000)
                s = Script([credentials('bob', token(rng)), timeout(9000), backoff(*st)]).connected()
                follow(s, cfg, [rng.choice(SOFT) for _ in range(soft)] + [hard], rng)
                out.append(s)
        s = Script([credentials('bob', token(rng)), timeout(9000), backoff(*st)]).connected()
        follow(s, dict(zip(('tries', 'init', 'mult', 'max'), st), timeout=9000), [rng.choice(SOFT) for _ in range(20)], rng)
        out.append(s.recv(1))
    out += huge_settings(rng) + many_tries(rng)
    # the default settings
    for k in range(12):
        s = Script([]).connected() if k % 2 else Script(via='anonymous').connected()
        follow(s, dict(tries=8, init=1000, mult=3, max=12000), ['refused'] * 9 if k < 8 else ['half'] * k, rng)
        out.append(s)
    while len(out) < n:
        b = some_backoff(rng)
        cfg = dict(tries=b['tries'][0] if b['tries'] else None, init=b['init'], mult=b['mult'], max=b['max'], timeout=9000)
        calls = [credentials('bob', token(rng)), timeout(9000), b]
        rng.shuffle(calls)
        s = Script(calls).connected()
        for _ in range(rng.choice([1, 1, 2, 3])):
            follow(s, cfg, [rng.choice(SOFT) for _ in range(rng.choice([0, 1, 2, 3, 6, 10]))] + [rng.choice(HARD)], rng, rng.random() < .7)
        out.append(s.recv(1))
    return out


def stalls(rng, n):
    """C17: peers which stop, trickle or accept slowly, at any point, on connect and on reconnect."""
    out = []
    data = (ACK + '\r\n' + WELCOME + '\r\n').encode()
    while len(out) < n:
        T = rng.choice([0, 1, 100, 4999, 5000, 5001, 6000, 9999, 10000, 10001, 30000, 60000])
        calls = [credentials('bob', token(rng)), timeout(T), backoff(rng.choice([0, 1, 2, 3]), rng.choice([0, 1, 500]), 2, 1000)]
        s = Script(calls)
        again = rng.random() < .5
        if again:
            # with T = 0 the first connect cannot succeed
            s.connected()('call', op='reconnect').tick(500)
        else:
            s('call', op='connect')
        kind = rng.randrange(6)
        if kind == 0:        # never opens
            s.tick(max(0, T - 1)).tick(1)
        elif kind == 1:      # opens late, then accepts nothing
            s.tick(max(0, T - 1))('openres', k='ok')('win', n=0).poll().tick(max(0, T - 1)).tick(1)
        elif kind == 2:      # accepts one byte at a time, slowly
            s('openres', k='ok')('win', n=1).poll()
            for _ in range(rng.choice([3, 30])):
                s('win', n=1).poll().tick(max(1, T // 20))
        elif kind == 3:      # trickles a line
            s.opened()
            for b in data[:rng.randint(0, len(data))]:
                s.rx([b]).poll()
                if rng.random() < .3:
                    s.tick(rng.choice([1, 100, 499, T // 10 + 1]))
        elif kind == 4:      # answers at the last moment
            s.opened().tick(rng.choice([4998, 4999])).rx(ACK + '\r\n').poll().tick(rng.choice([4998, 4999])).rx(WELCOME + '\r\n').poll()
        else:                # never flushes
            s('openres', k='ok')('gate', open=False).poll().tick(max(0, T - 1)).tick(1)
        for ms in (1, 4999, 1, T, T, 60000):
            s.tick(ms)
        # a result or a bound has been hit by now, except while waiting to try again
        out.append(s)
    return out


def streams(rng, n):
    """C18: receiving."""
    out = []
    # every error kind, after a complete line, on an empty stream, and within a line
    for k in ERRS:
        for before in ('', 'X\r\n', 'X\r\nY'):
            s = Script([]).connected()
            if before:
                s.rx(before)
            s('rerr', k=k).recv(2 if before.endswith('Y') else 4)
            out.append(s)
    # a few lines split at every place, with a cancelled call at the split
    for lines in (['A', '\u00e9\u4f60', '', 'B\r'], ['\r', '\rX', 'A\rB'], ['@a=b :x!y@z PRIVMSG #c :hi', 'PING']):
        data = b''.join(l.encode() + e for l, e in zip(lines, [b'\r\n', b'\n', b'\r\n', b'\r\n']))
        for at in range(len(data) + 1):
            for cancel in (False, True):
                s = Script([]).connected()
                if at:
                    s.rx(data[:at])
                s.recv(len(lines) + 1)
                if cancel:
                    s('cancel').recv(1)
                if at < len(data):
                    s.rx(data[at:]).poll()
                s.recv(len(lines))('cancel')('eof').recv(3)
                out.append(s)
            s = Script([]).connected().rx(data[:at] or b'A\n')('eof').recv(len(lines) + 3)
            out.append(s)
    # odd characters at either end of a line and within
    for c in ODD:
        s = Script([]).connected()
        for t in (c, c + 'AB', 'AB' + c, 'A' + c + 'B', 'A :' + c + 'x', 'A :x' + c, c + c + ' X ' + c):
            s.rx(t + '\r\n' + t + '\n').recv(4)
        out.append(s('cancel')('eof').recv(2))
    # long lines, around the buffer of the reader
    for size in [254, 255, 256, 510, 511, 512, 513, 1022, 1023, 1024, 2048, 4094, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16384, 20000, 65535, 65536, 140000]:
        for end in ('\n', '\r\n'):
            out.append(Script([]).connected().rx('x' * size + end + 'NEXT\n').recv(2)('eof').recv(2))
            out.append(Script([]).connected().rx('x' * size + end[:1]).recv(1).rx((end[1:] or 'Y') + 'NEXT\n').poll().recv(2))
    bad = [b'\xff', b'\xc3', b'\xe4\xbd', b'\xed\xa0\x80', b'\xf0\x9f\x98', b'\xc0\x80', b'\xf4\x90\x80\x80', b'\xe4\xbdA', b'\x80', b'\xf0\x8f\xbf\xbf', b'\xe0\x9f\xbf', b'\xf5']
    ok = [b'\xc2\x80', b'\xdf\xbf', b'\xe0\xa0\x80', b'\xed\x9f\xbf', b'\xee\x80\x80', b'\xef\xbf\xbf', b'\xf0\x90\x80\x80', b'\xf4\x8f\xbf\xbf', b'\x00', b'\x7f']
    for b in bad + ok:
        for pre, post in ((b'', b''), (b'A', b''), (b'', b'B'), (b'A ', b'B')):
            out.append(Script([]).connected().rx(pre + b + post + b'\r\nNEXT\r\n').recv(2).rx(pre + b + post)('eof').recv(3))
    while len(out) < n:
        s = Script([]).connected()
        data = b''
        for _ in range(rng.randint(0, 8)):
            r = rng.random()
            if r < .5:
                data += rng.choice(LINES).encode()
            elif r < .65:
                data += rng.choice(BAD_LINES).encode()
            elif r < .75:
                data += rng.choice(bad + ok)
            else:
                data += bytes(rng.choice(b'AB:@ \r;=\xc3\xa9') for _ in range(rng.randint(0, 10)))
            data += rng.choice([b'\r\n', b'\r\n', b'\n', b'\r\r\n', b'\n\n'])
        tail = rng.choice([b'', b'', b'X', b'X\r', b'\xff', rng.choice(LINES).encode()])
        for p in pieces(rng, data + tail, 8):
            s.rx(p)
            for _ in range(rng.choice([0, 1, 1, 2])):
                s(rng.choice(['poll', 'cancel'])) if rng.random() < .3 else s.recv(1).poll()
            if rng.random() < .1:
                s.tick(rng.choice([1, 60000]))
        s.poll()
        r = rng.random()
        if r < .5:
            s('eof').poll()
        elif r < .8 and not tail:
            s('rerr', k=rng.choice(ERRS)).poll()
        s.recv(rng.randint(0, 10)).poll()
        out.append(s)
    return out


def sessions(rng, n):
    """C19 and everything else: long histories."""
    out = []
    while len(out) < n:
        T = rng.choice([3000, 9000, 30000])
        b = backoff(rng.choice([0, 1, 2, None]), rng.choice([0, 100]), rng.choice([1, 2]), 400)
        t = token(rng)
        s = Script([credentials('bob', t), timeout(T), b], secret=t).connected()
        tag = 0
        for _ in range(rng.randint(2, 7)):
            tag += 1
            for _ in range(rng.randint(0, 5)):
                r = rng.random()
                if r < .3:
                    for p in pieces(rng, f'MSG{tag} :{rng.randint(0, 99)}\r\n' + rng.choice(['', f'PART{tag}', f'MORE{tag} x\r\n', ACK + '\r\n', WELCOME + '\r\n']), 2):
                        s.rx(p)
                        if rng.random() < .5:
                            s.poll()
                elif r < .5:
                    s.recv(rng.randint(1, 3))
                elif r < .75:
                    s('cancel')
                    if rng.random() < .4:
                        s('win', n=rng.choice([0, 3, 10]))
                    s('call', **some_send(rng)).poll()
                elif r < .8:
                    s('cancel')
                elif r < .85:
                    s('eof').poll()
                elif r < .9:
                    s('werr', k=rng.choice(ERRS)).poll()
                else:
                    s.rx(f'OLD{tag} y\r\nHALF{tag}', max(1, tag - 1))
            s('cancel')
            if rng.random() < .5:
                s('win', n=-1)
            s('call', op='reconnect').tick(100)
            for _ in range(rng.randint(0, 2)):
                attempt(s, rng, dict(timeout=T))
                s.tick(100).tick(100)
            if rng.random() < .4:
                s('cancel')
            else:
                s('openres', k='ok').poll().replies()
        finish_session(s, rng)
        out.append(s)
    return out


def sends(rng, n):
    """C20: the bytes of every kind of call."""
    out = []
    def batch(args):
        for i in range(0, len(args), 12):
            s = Script([credentials('bob', token(rng))]).connected()
            for a in args[i:i + 12]:
                s('call', **{'shape': rng.randrange(4), **a})
            out.append(s)
    args = [dict(op='privmsg', channel=c, text=t, reply=[], nonce=[]) for c in CHANNELS for t in TEXTS[:8]]
    args += [dict(op='privmsg', channel='#c', text=t, reply=r, nonce=k) for t in TEXTS + BREAKS for r in ([], ['a b']) for k in ([], ['x;y'])]
    args += [dict(op='privmsg', channel='#c', text='t', reply=[i], nonce=k) for i in IDS for k in ([], [i], ['n'])]
    args += [dict(op='privmsg', channel='#c', text='t', reply=[], nonce=[i], nonce_first=True) for i in IDS]
    args += [dict(op='privmsg', channel=b, text='t', reply=[], nonce=[]) for b in BREAKS]
    args += [dict(op='ping', nonce=t) for t in TEXTS + BREAKS + IDS]
    args += [dict(op='join', channel=c) for c in CHANNELS + BREAKS]
    args += [dict(op='join_all', channels=[a, b]) for a in CHANNELS for b in CHANNELS[:6]] + [dict(op='join_all', channels=['a', b, '#c']) for b in BREAKS]
    args += [dict(op='join_all', channels=['c%d' % i for i in range(k)]) for k in (1, 2, 3, 10, 200)]
    args += [dict(op='send_raw', data=d + e) for d in TEXTS + BREAKS for e in ('\r\n', '', '\n', '\r', '\n\r', '\r\n\r\n', '\r\r\n')]
    # every odd character at either end and within, in every place of every command
    for c in ODD:
        for t in (c, c + 'ab', 'ab' + c, 'a' + c + 'b', c + ' a ' + c):
            args += [dict(op='privmsg', channel='#c', text=t, reply=[], nonce=[]), dict(op='ping', nonce=t), dict(op='join', channel=t),
                     dict(op='join_all', channels=['x', t, 'y']), dict(op='send_raw', data=t + '\r\n')]
        for t in (c + 'ab', 'ab' + c, 'a' + c + 'b'):
            args += [dict(op='privmsg', channel=t, text='t', reply=[], nonce=[]), dict(op='privmsg', channel='#c', text='t', reply=[t], nonce=[]),
                     dict(op='privmsg', channel='#c', text='t', reply=[], nonce=[t])]
    batch(args)
    while len(out) < n:
        batch([some_send(rng) for _ in range(12)])
    return out


SIZES = [100, 255, 256, 257, 400, 480, 490, 500, 510, 512, 520, 1000, 1023, 1024, 1025, 2048, 4090, 4096, 4100, 8180, 8192, 8200, 16384, 16500, 33000, 66000]


def backpressure(rng, n):
    """C21: connections which accept little, late, or fail."""
    out = []
    cmds = [dict(op='privmsg', channel='#c', text='hello there', reply=[], nonce=[]), dict(op='ping', nonce='n'), dict(op='join', channel='chan'),
            dict(op='join_all', channels=['a', 'b', 'c']), dict(op='send_raw', data='RAW x\r\n'), dict(op='pong', line='PING :x', how='owned')]
    for cmd in cmds:
        for at in range(0, 40):
            for what in ('stop', 'err', 'zero', 'ferr', 'gate', 'cancel'):
                s = Script([]).connected()('win', n=at)
                if what == 'err':
                    s('werr', k=rng.choice(ERRS))
                elif what == 'zero':
                    s('werr', k='WriteZero')
                elif what == 'ferr':
                    if at:
                        continue
                    s('win', n=-1)('ferr', k=rng.choice([e for e in ERRS if e != 'WriteZero']))
                elif what == 'gate':
                    s('gate', open=False)
                s('call', **cmd).tick(100000)
                if what == 'cancel':
                    s('cancel')
                s('win', n=-1).poll()('gate', open=True).poll()
                s('call', **rng.choice(cmds))
                out.append(s)
    # messages of any size, on connections which take them at once, in parts, or flush late or never
    for size in SIZES:
        for cmd in (dict(op='privmsg', channel='#c', text='x' * size, reply=[], nonce=[]), dict(op='ping', nonce='y' * size),
                    dict(op='join_all', channels=['c' * 20] * (size // 20 + 1)), dict(op='send_raw', data='z' * size + '\r\n')):
            for what in ('gate', 'ferr', 'part', 'werr'):
                s = Script([]).connected()
                if what == 'gate':
                    s('gate', open=False)
                elif what == 'ferr':
                    s('ferr', k='BrokenPipe')
                else:
                    s('win', n=rng.choice([1, size // 2, size, size + 1]))
                s('call', **cmd).poll()
                if what == 'werr':
                    s('werr', k='ConnectionReset').poll()
                elif what == 'part':
                    s('win', n=rng.choice([1, 5])).poll()
                s('win', n=-1).poll()('gate', open=True).poll()('call', op='ping', nonce='next')
                out.append(s)
    while len(out) < n:
        s = Script([]).connected()
        for _ in range(rng.randint(1, 6)):
            s('win', n=rng.choice([-1, 0, 1, 2, 3, 7, 20, 100, 1000]))
            if rng.random() < .2:
                s('gate', open=False)
            s('call', **(some_send(rng, wide=False) if rng.random() < .4 else rng.choice(cmds)))
            for _ in range(rng.randint(0, 12)):
                s('win', n=rng.choice([0, 1, 1, 2, 5, 30]))
                if rng.random() < .7:
                    s.poll()
                if rng.random() < .1:
                    s('gate', open=rng.random() < .7)
            r = rng.random()
            if r < .05:
                s('werr', k=rng.choice(ERRS)).poll()
            elif r < .1:
                s('ferr', k=rng.choice([e for e in ERRS if e != 'WriteZero'])).poll()
            elif r < .2:
                s('cancel')
            s('win', n=-1)('gate', open=True).poll()
        out.append(s)
    return out


def huge_settings(rng):
    """Settings around the bounds of the integers that could hold them; none of these times ever passes."""
    out = []
    big = [2**k + d for k in (31, 32, 33, 40, 53, 63) for d in (-1, 0, 1)] + [2**31 // 1000 * 1000, 2**32 * 1000, 2**32 * 1000 + 5, 2**64 - 1, 10**12, 10**18]
    big = [b for b in big if b >= 10**9]
    for b in big:
        # an opening which takes long, and a peer which does not take the handshake
        s = Script([timeout(b), credentials('bob', token(rng))])('call', op='connect')
        for _ in range(3):
            s.tick(60000)
        s('openres', k='ok')('win', n=5).poll()
        for _ in range(3):
            s.tick(60000)
        s('win', n=-1).poll()
        if b % 2:
            s.tick(5000)
        else:
            s.replies().recv(1)
        out.append(s)
        # many tries
        s = Script([backoff(b, 10, 2, 40), timeout(9000)]).connected()
        follow(s, dict(tries=b, init=10, mult=2, max=40), [rng.choice(SOFT) for _ in range(12)] + ['good'], rng)
        out.append(s)
        # the first delay is far too long
        s = Script([backoff(3, b, 2, rng.choice([5, b]))]).connected()('call', op='reconnect')
        for _ in range(3):
            s.tick(rng.choice([3600000, 90000000, 250000000]))
        out.append(s)
        # the delay is not capped
        s = Script([backoff(rng.choice([None, 9]), 3, 3, b), timeout(9000)]).connected()('call', op='reconnect')
        d = 3
        for _ in range(8):
            s.tick(d - 1).tick(1)('openres', k='ConnectionRefused').poll()
            d *= 3
        out.append(s.tick(d - 1).tick(1)('cancel'))
        if b < 2**32:
            s = Script([backoff(3, 1, b, b), timeout(9000)]).connected()('call', op='reconnect').tick(1)('openres', k='ConnectionRefused').poll()
            out.append(s.tick(4000000).tick(300000000))
            s = Script([backoff(4, rng.choice([0, 1, 2]), b, 7), timeout(9000)]).connected()('call', op='reconnect')
            for _ in range(4):
                for _ in range(8):
                    s.tick(1)
                s('openres', k='ConnectionRefused').poll()
            out.append(s)
    return out


def many_tries(rng):
    """More attempts than anything would count by mistake."""
    out = []
    for tries in (None, 2**40, 700, 257, 256, 1100):
        s = Script([backoff(tries, rng.choice([0, 1]), 1, 1), timeout(9000)]).connected()
        follow(s, dict(tries=tries, init=1, mult=1, max=1), [rng.choice(['refused', 'broken']) for _ in range(1200)], rng)
        out.append(s)
    return out


def configs(rng, n):
    """C14: what a client does with its settings."""
    out = []
    for k in range(150):
        s = Script([], via=rng.choice([None, 'anonymous'])).connected() if k % 3 else \
            Script([timeout(rng.randint(0, 100000))] if k % 2 else [some_backoff(rng)]).connected()
        out.append(s)
    setters = [lambda: credentials(rng.choice(['bob', 'alice', 'x', '', 'justinfan12345', 'x' * 300]),
                                   rng.choice([None, '', token(rng), 'oauth:' + token(rng)])),
               lambda: timeout(rng.choice([0, 1, 100, 2000, 5000, 7000, 12000, 30000, 45000, 600000])), lambda: some_backoff(rng)]
    # so many that each of the 89999 has been seen
    out += [{'anon': 150000} for _ in range(16)]
    out += huge_settings(rng)
    out += odd_credentials(rng)
    orders = [o for k in range(4) for o in itertools.product(range(3), repeat=k)]
    while len(out) < n:
        order = orders[len(out) % len(orders)] if rng.random() < .7 else [rng.randrange(3) for _ in range(rng.randint(0, 8))]
        calls = [setters[i]() for i in order]
        cfg = cfg_of(calls)
        T = cfg['timeout']
        s = Script(calls)('call', op='connect')
        kind = len(out) % 4
        if kind == 0:
            s.tick(max(0, T - 1)).tick(1)
        elif kind == 1:
            s('openres', k='ok')('win', n=rng.choice([0, 5])).poll().tick(max(0, T - 1)).tick(1)
        else:
            s.opened().replies().recv(1)('cancel')('call', op='ping', nonce='x')
            follow(s, cfg, [rng.choice(SOFT) for _ in range(rng.randint(0, 4))] + ['good'], rng)
            if cfg['tries'] != 0:
                # and once more
                follow(s, cfg, ['refused'] * rng.randint(0, 3), rng)
                s('cancel')('call', op='reconnect').tick(cfg['init']).tick(max(0, T - 1)).tick(1)
        out.append(s)
    return out


def pings(rng, n):
    """C24."""
    out = []
    nonces = [None, '', 'x', ':', '::', ' ', 'a b', ' a', 'a ', 'tmi.twitch.tv', '\u00e9\U0001f600', '#a', '#a b', '@a=b', ';', '\\s', ',', 'a:b', '12345', 'x' * 600, '\t', '\r']
    heads = ['', ':tmi.twitch.tv ', '@a=b ', '@a=b :n!u@h ']
    lines = []
    for h in heads:
        lines += [h + 'PING'] + [h + 'PING ' + c + v for v in nonces if v is not None for c in ('', ':', 'x :', '#c :', '#c ')]
    lines += [h + 'PING ' + p + t for c in ODD for t in (c, c + 'ab', 'ab' + c, 'a' + c + 'b') for h in heads[:2] for p in ('', ':')]
    while len(lines) < n:
        lines.append(rng.choice(heads) + 'PING ' + ''.join(rng.choice('ab :#@;\\\u00e9') for _ in range(rng.randint(0, 8))))
    for i in range(0, len(lines), 8):
        s = Script([]).connected()
        for l in lines[i:i + 8]:
            for how in ('borrowed', 'owned', 'serde'):
                s('call', op='pong', line=l, how=how)
        out.append(s)
    values = [v for v in nonces if v is not None and '\r' not in v]
    values += [t for c in ODD if c not in '\r\n' for t in (c, c + 'ab', 'ab' + c, 'a' + c + 'b')]
    while len(values) < n:
        values.append(''.join(rng.choice('ab :#@;\\\u00e9') for _ in range(rng.randint(0, 8))))
    for i in range(0, len(values), 12):
        s = Script([]).connected()
        for v in values[i:i + 12]:
            s('call', op='ping', nonce=v)
        out.append(s)
    return out


def bypasses(rng, n):
    out = []
    for k in range(1, 8):
        for ops in itertools.product(('get', 'copy', 'last'), repeat=k):
            if k > 5 and rng.random() > .2:
                continue
            slots, prog = 1, []
            for o in ops:
                if o == 'get':
                    prog.append(['get', 0])
                elif o == 'last':
                    prog.append(['get', slots - 1])
                else:
                    prog.append([rng.choice(['copy', 'clone']), slots - 1])
                    slots += 1
            out.append(prog)
    while len(out) < n:
        slots, prog = 1, []
        for _ in range(rng.randint(1, 60)):
            r = rng.random()
            if r < .8:
                prog.append(['get', rng.randrange(slots)])
            else:
                prog.append([rng.choice(['copy', 'clone', 'new']), rng.randrange(slots)])
                slots += 1
        out.append(prog)
    return [{'bypass': p} for p in out]


def secrets(rng, n):
    """C22: every outcome, with a token to look for."""
    out = []
    for make in (handshakes, reconnects, streams, backpressure, sends, sessions, stalls):
        all_ = make(rng, 200)
        for s in rng.sample(all_, min(len(all_), n // 7)):
            t = token(rng)
            prefix = rng.choice(['', 'oauth:', 'OAUTH:', 'oauth:oauth:'])
            calls = s.d['how'].get('calls')
            if calls is None:
                calls = []
            s.d['how'] = {'calls': [c for c in calls if c['set'] != 'credentials'] + [credentials('bob', prefix + t)]}
            s.d['secret'] = t
            out.append(s)
    return out
