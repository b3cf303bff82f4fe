"""Inputs for the wire-level checks.  Everything is a function of the seed and the tier."""
import itertools, json, os, random
from common import VERIF

with open(os.path.join(VERIF, 'data', 'corpus.json')) as f:
    CORPUS = json.load(f)

# ------------------------------------------------------------------ raw lines

SHORT = '@ =;:#!a'
PIECES = ['@', ' ', '=', ';', ':', '#', '!', '@a=b', ';', 'k', 'key', 'v', 'é', '⸝', '한', '😀', '\\', '\\s', ',', '/', '\t',
          '\r', '\n', '\0', '\x7f', '\u00a0', '\u2003', '\u3000', 'PRIVMSG', 'PING', '353', '366', '001', 'CAP', '  ',
          ' :', ' #', '#c', ':n!u@h', '!@', '@!', '::', '==', ';;', 'privmsg', 'PRIVMSGS', '\u0001']


def short_lines(n):
    for k in range(n + 1):
        for p in itertools.product(SHORT, repeat=k):
            yield ''.join(p)


def prefixed_short(n):
    """Short strings after the parts that come first, so that the later parts are explored too."""
    heads = ['PING ', ':a!b@c X ', '@a=b X ', ': X ', '@ X ', '@a=b :n@h 353 ', '366 ', '353 a ', ':s 353 n = ', ':s 366 n ']
    for h in heads:
        for k in range(n + 1):
            for p in itertools.product(': #a', repeat=k):
                yield h + ''.join(p)


def prefixes():
    """Every short prefix over its own delimiters, with and without what follows."""
    for k in range(6):
        for p in itertools.product('!@a', repeat=k):
            yield ':' + ''.join(p) + ' PING x'
    for k in range(4):
        for p in itertools.product(['!', '@', 'ab', 'é', '.'], repeat=k):
            yield '@t=v :' + ''.join(p) + ' JOIN #c'


# characters which some code somewhere treats as special: controls, spaces, line ends, quotes, delimiters
ODD = [chr(i) for i in range(0x20)] + list(' "#%&\'()*+,-./:;<=>?@[\\]^_`{|}~!$') + ['\x7f', '\x80', '\x85', '\u00a0', '\u00ad', '\u1680', '\u2003',
       '\u200b', '\u200d', '\u2028', '\u2029', '\u202e', '\u2060', '\u3000', '\ufe0f', '\ufeff', '\ufffd', '\uffff', '\U000e0000', '\U000e0001',
       '\U0010ffff', '\u0130', '\u017f', '\u212a', '\u0301', '１']
USUAL = ['@id=1;color=#FF;room-id=9 :nick!user@host PRIVMSG #chan :some text', ':nick!user@host JOIN #chan', ':host 353 me = #chan :a b', 'PING :x y',
         ':tmi.twitch.tv CAP * ACK :twitch.tv/tags', '@a=b;c PART #x params', ':nick@host 366 me #chan :end']


def every_char(rng, some=None):
    """Every odd character put in at every place of usual lines, and in place of every character."""
    for u in USUAL:
        for i in range(len(u) + 1):
            for c in ODD if some is None else rng.sample(ODD, some):
                yield u[:i] + c + u[i:]
                yield u[:i] + c + u[i + 1:]
    for u in USUAL:
        for w in [' ', ':', ' :', ' #']:
            for c in ODD:
                # next to the delimiters, in any case
                for at in [i for i in range(len(u)) if u.startswith(w, i)][:4]:
                    yield u[:at] + c + u[at:]
                    yield u[:at + len(w)] + c + u[at + len(w):]
        for c in ODD:
            yield u + c
            yield c + u


def command_names():
    """Every command in other cases, and names which almost are a command."""
    from names import COMMANDS
    for c in COMMANDS:
        near = [c, c.lower(), c.title(), c.swapcase(), c[:-1] + c[-1:].lower(), c[:1].lower() + c[1:], c + 's', c + 'S', c + c, c[:-1], c[1:], '0' + c, c + '0',
                ' ' + c, c.replace('I', '\u0130').replace('S', '\u017f').replace('K', '\u212a'), c + '\0', c + '\r', '+' + c, c + '.', c.replace('0', 'O'),
                c.lower().replace('i', '\u0131')]
        near += [str(int(c) + d).zfill(w) for d in (-1, 1) for w in (1, 3)] + [str(int(c)), c.zfill(4)] if c.isdigit() else []
        for n in near:
            yield n
            yield n + ' #c :x'
            yield '@a=b :n!u@h ' + n + ' #chan :x y'


FILL = ['a', 'é', '한', '😀', '\\', ',', '\t', '\x7f']


def sweep(rng, top, step=1):
    """Each delimiter at each distance from the start, so at each place of a vector register and
    of its remainder, with the line ending at different distances behind it."""
    tails = [0, 1, 2, 15, 16, 17, 30, 31, 32, 33, 47, 63, 64, 65, 127]
    for n in range(0, top, step):
        a = 'k' * n
        t = rng.choice(tails)
        x, y = 'x' * t, 'y' * rng.choice(tails)
        yield '@' + a + '=' + x + ' PING'
        yield '@' + x + '=' + a + ' PING'
        yield '@' + a + '=' + x + ';' + y + '=z PING'
        yield '@q=' + a + ';' + x + '=' + y + ' PRIVMSG #c :t'
        yield '@q=' + a + ';r=' + x
        yield '@' + a + ' PING ' + x
        yield '@' + a + ';' + x + '=1 PING'
        yield '@k=' + a + '=' + x + ';b=' + y + '; PING'
        yield ':' + a + '!' + x + '@' + y + ' JOIN #' + a
        yield ':' + a + '@' + x + ' JOIN #c' + x + ' :' + y
        yield ':' + a + ' ' + x + ' ' + y
        yield '@a=b :' + a + '!' + x + '@' + y + ' X' + x + ' #' + y + ' p:' + a
        yield a + ' ' + x + ':' + y
        yield 'C ' + a + ':' + x + ':' + y
        yield '353 ' + a + ' ' + x + ' #' + y + ' :z'
    for n in range(0, min(top, 150), step):
        f = rng.choice(FILL)
        a = f * (n // len(f.encode()))
        yield '@' + a + '=' + a + ';' + a + '=x PING :' + a
        yield ':' + a + '!' + f + '@' + a + ' ' + a + ' #' + a + ' :' + a
        yield '@' + ';'.join('%s=%s' % ('k' * rng.randrange(20), 'v' * rng.randrange(40)) for _ in range(n // 8)) + ' PING'


def dense(rng, n):
    """Many delimiters close together in long tag sections."""
    for _ in range(n):
        m = rng.choice([20, 40, 64, 100, 130, 200, 300])
        w = rng.choice(['ab=;', 'aaaaaaa=;', '=;', 'aaaa=;=;', 'abc==;', 'a=;;;', 'aé=;'])
        body = ''.join(rng.choice(w) for _ in range(rng.randrange(m)))
        yield '@' + body + rng.choice([' ', ' PING', ' :p!u@h PRIVMSG #c :x=y;z', '', ' a', '  a', ' :a b'])


def counts(ns):
    for n in ns:
        yield '@' + ';'.join(f'k{i}=v{i}' for i in range(n)) + ' PING'
        yield '@' + ';' * n + ' PING'
        yield '@' + '=;' * n + ' PING'
        yield '@' + '=' * n + ' PING'
        yield '@' + 'a=;' * n + 'b PRIVMSG #c :t'


def many_tags():
    """More tags than 16 bits can count."""
    yield '@' + 'a=;' * 65540 + 'b=c PING'


def huge(ns):
    for n in ns:
        v = 'v' * n
        yield f'@a={v};b=c PING'
        yield f'@{v}=a;b=c PING'
        yield f'@a=b;c={v} :n!u@h PRIVMSG #c :t'
    n = max(ns)
    v = 'v' * n
    yield f':{v}!u@h PING x'
    yield f':n!{v}@h {v} #c :x'
    yield f'PING {v}:{v}'
    yield f'X #{v} :t'


def soup(rng, n):
    for _ in range(n):
        yield ''.join(rng.choice(PIECES) for _ in range(rng.randrange(1, 14)))


def shaped(rng, n):
    """Lines of the right shape out of nasty parts."""
    word = lambda: ''.join(rng.choice(PIECES + ['w'] * 12) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))).replace(' ', '')
    for _ in range(n):
        s = ''
        if rng.random() < .6:
            s += '@' + ';'.join(rng.choice([word() + '=' + word(), word(), word() + '=']) if rng.random() < .5
                                else 'k=' + word() for _ in range(rng.randrange(6))) + ' '
        if rng.random() < .6:
            s += ':' + rng.choice([word(), word() + '!' + word() + '@' + word(), word() + '@' + word(), word() + '!' + word()]) + ' '
        s += rng.choice(['PRIVMSG', 'PING', '353', '366', '001', 'NOTICE', word(), word()])
        if rng.random() < .8:
            s += ' ' + rng.choice(['#', '', '#' + word(), word()])
        if rng.random() < .8:
            s += ' ' + rng.choice([':', '', '= ']) + ' '.join(word() for _ in range(rng.randrange(4)))
        yield s


SPECIAL = list('@ =;:#!\\,/\r\n\t\0a0') + ['é', '⸝', '😀', '\u00a0', '\x01']


def mutate(rng, s, times):
    for _ in range(times):
        n = len(s)
        i = rng.randrange(n + 1)
        j = min(n, i + rng.choice([1, 1, 1, 2, 5, 20]))
        op = rng.randrange(7)
        if op == 0:
            s = s[:i] + s[j:]
        elif op == 1:
            s = s[:i] + rng.choice(SPECIAL) + s[i:]
        elif op == 2:
            s = s[:i] + rng.choice(SPECIAL) + s[i + 1:]
        elif op == 3:
            s = s[:i] + s[i:j] * rng.choice([2, 3, 10]) + s[j:]
        elif op == 4:
            s = s[:i]
        elif op == 5:
            other = rng.choice(CORPUS)
            k = rng.randrange(len(other) + 1)
            s = s[:i] + other[k:]
        else:
            # exchange two tags or two words
            sep = rng.choice('; ')
            w = s.split(sep)
            a, b = rng.randrange(len(w)), rng.randrange(len(w))
            w[a], w[b] = w[b], w[a]
            s = sep.join(w)
        if len(s) > 6000:
            s = s[:6000]
    return s


def mutants(rng, n):
    few = [c for c in CORPUS if len(c) < 1200]
    for _ in range(n):
        yield mutate(rng, rng.choice(few), rng.choice([1, 1, 2, 3]))


# ------------------------------------------------------------------ typed messages

NUM = ['', '0', '1', '2', '7', '9', '10', '00', '01', '007', '+5', '-0', '-1', '-5', '+', '-', '60', '255', '256', '257', '1000',
       '65535', '65536', '2147483647', '2147483648', '4294967295', '4294967296', '9223372036854775807',
       '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '18446744073709551615',
       '18446744073709551616', '99999999999999999999999', ' 1', '1 ', '1.5', '0x1', '1e3', 'abc', '１', '1_0', 'true', 'false',
       '0000000000000000000000000000001', '153722867280912930', '153722867280912931', '307445734561825860', '307445734561825861']
NUM = [n for n in NUM if ' ' not in n]
TS = ['', '0', '1', '-1', '999', '1000', '1685734498590', '+1685734498590', '01685734498590', '8210266876799999',
      '8210266876800000', '-8334601228800000', '-8334601228800001', '9223372036854775807', '-9223372036854775808',
      '9223372036854775808', 'abc', '1.0', '-', '253402300800000']
TEXT = ['', 'a', 'Some_Name', 'with\\sspace', 'semi\\:colon', 'back\\\\slash', '\\r\\n', 'trail\\', '\\x', '\\\\s', 'a⸝b', '\\⸝',
        '한국어', '😀', 'a=b', '==', '"quoted"', '\\"', 'tab\tx', '{}', '\u0000', 'x,y', '#FF0000', 'é\\sé', '\u2028', '\\⸝s', '\\\\\\s',
        "it's", '\x7f', 'null', '0', '\\', ' '.strip() + '\u00a0']
BADGES = ['', 'a/1', 'subscriber/12', 'moderator/1', 'staff/1', 'turbo/1', 'broadcaster/1', 'subscriber/0,premium/1',
          'moderator/1,subscriber/3024', 'a', 'a/', '/1', '/', 'a/b/c', 'a/1,', ',a/1', ',,', 'a/1,,b/2', 'subscriber',
          'subscriber/', 'staff/2,turbo/3,broadcaster/4,moderator/5,subscriber/6,vip/7', 'a/1,a/2', 'subscriber/1,subscriber/2',
          'vip/1,premium/1', 'Subscriber/1', 'subscriber /1', 'x⸝y/1', 'x\\s/1', '한/1', 'moderator/', 'bits/100', 'founder/0',
          'predictions/blue-1', 'a,b/1,c', 'sub-gifter/50', 'a/1,b/2,c/3,d/4,e/5,f/6,g/7,h/8', 'subscriber/abc', '"/"', 'staff',
          'moderator/x', 'admin/1', 'global_mod/1']
KNOWN_BADGES = ['subscriber', 'moderator', 'staff', 'turbo', 'broadcaster', 'admin', 'vip', 'founder', 'premium', 'bits']
BADGES += [f'{n}/1' for b in KNOWN_BADGES for n in (b + 's', b[:-1], b[1:], b.title(), b.upper(), b[:3], 'x' + b, b + '2', b + '-x', b + ' ', b + '\\s', b[::-1])
           if ' ' not in n]
INFO = ['', 'subscriber/35', 'subscriber/0', 'subscriber/abc', 'subscriber/', 'subscriber', 'a/9', 'a/1,a/2', 'moderator/x',
        'subscriber/1,subscriber/2', 'b/x/y', 'founder/10', 'subscriber/18446744073709551615', 'subscriber/18446744073709551616',
        ',subscriber/3', 'a,subscriber/4', 'predictions/x⸝y', 'subscriber/+5', 'subscriber/-5', 'subscriber/007', 'vip/z,bits/q',
        'staff/i,turbo/j,broadcaster/k', '/e', 'premium/1,subscriber/8', 'subscriber//', 'subscriber/5/6', 'subscribers/6,subscriber/7',
        'sub/1', 'subscriber/1000000', 'c/,b/2', '"/"', 'a/']
COLOR = ['', '#FF0000', '#abc', 'red', 'PRIMARY', '#', '0']
EMOTES = ['', '25:0-4', '25:0-4,6-10/1902:12-16', '555555591:51-52/25:0-4,12-', 'x', '300196486_TK:0-7', '/', ':']
FLAG = ['', '0', '1', '2', '10', '255', '256', '-1', '+1', '01', '00', 'true', 'x', '１']
LEVEL = ['', 'ONE', 'TWO', 'THREE', 'FOUR', 'FIVE', 'SIX', 'SEVEN', 'EIGHT', 'NINE', 'TEN', 'one', 'ELEVEN', '1', 'ONE\\s', 'TENS']
ID = ['', '0', '1', '40286300', 'e21409b1-d25d-4a1a-b5cf-ef27d8b7030e', '274598607', '0274598607', 'x', '\\s', '한']
SETS = ['', '0', '0,1', '0,,1', ',', '0,', ',0', '75c0-9c7b', 'a,b,c,d,e,f,g,h,i', '⸝', '0\\s1']
MSGIDS = ['sub', 'resub', 'raid', 'subgift', 'anonsubgift', 'submysterygift', 'anonsubmysterygift', 'giftpaidupgrade',
          'anongiftpaidupgrade', 'ritual', 'bitsbadgetier', 'announcement', 'rewardgift', 'primepaidupgrade', '', 'SUB', 'sub ',
          'subs', 'su', 'unraid', 'communitypayforward', 'standardpayforward', 'viewermilestone', 'sharedchatnotice', 'midnightsquid']
MSGIDS = [m for m in MSGIDS if ' ' not in m]
ACTION = '\x01ACTION '
MESSAGE = [None, '', 'hello', 'hello world', ':x', 'a:b', ' lead', 'trail ', '#chan', ACTION + 'waves\x01', ACTION + 'waves', ACTION, ACTION + '\x01',
           ACTION + ' \x01', ACTION + 'x\x01\x01', ACTION + 'x\x01 ', '\x01ACTION\x01', '\x01ACTION', 'x' + ACTION + 'y\x01', '\x01action y\x01', '\x01',
           ACTION + ACTION + 'n\x01\x01', ACTION + 'é\x01', ACTION + '\x01x\x01', '한국어 😀', 'é', 'tab\t', '\u0000', '@x yes', '\\s\\:', 'x;y=z',
           'PRIVMSG #a :b', ACTION + ':\x01', '\u2800', 'a' * 500, 'ACTION x\x01', '\x01ACTIONx y\x01', '"q\\"', '⸝', ' ', '  :', '\x01ACTION  two\x01',
           ACTION + 'tail\x01x']
PREFIX = [None, '', 'nick!user@host', 'nick@host', 'host', '!@', '@', '!', 'a!b', 'n!u@h@i', 'n!o!u@h', 'a@b!c', '한!한@한', 'tmi.twitch.tv', 'n!@h', '!u@h',
          'n!u@', 'randers!randers@randers.tmi.twitch.tv']
CHANNEL = [None, '#pajlada', '#', '#a', '##x', '#한', 'pajlada', '*', '#chatrooms:1:2', '#a,b']

# command -> (required or optional tag: (usual value, other values)), usual prefix/channel/message
USER = {'user-id': ('40286300', ID), 'display-name': ('randers', TEXT)}
BADGED = {'badges': ('moderator/1,subscriber/12', BADGES), 'badge-info': ('subscriber/22', INFO)}
REPLY = {'reply-parent-msg-id': ('6b13', ID), 'reply-parent-user-id': ('1', ID), 'reply-parent-user-login': ('l', TEXT),
         'reply-parent-display-name': ('L', TEXT), 'reply-parent-msg-body': ('hi\\sthere', TEXT),
         'reply-thread-parent-msg-id': ('7c', ID), 'reply-thread-parent-user-login': ('tl', TEXT)}
PAID = {'pinned-chat-paid-amount': ('200', NUM), 'pinned-chat-paid-canonical-amount': ('200', NUM),
        'pinned-chat-paid-currency': ('USD', TEXT), 'pinned-chat-paid-exponent': ('2', NUM),
        'pinned-chat-paid-level': ('ONE', LEVEL), 'pinned-chat-paid-is-system-message': ('0', FLAG)}
PROMO = {'msg-param-promo-gift-total': ('20', NUM), 'msg-param-promo-name': ('Sub\\stember', TEXT)}
COMMON = {'room-id': ('11148817', ID), 'tmi-sent-ts': ('1594561360331', TS)}
PLAN = {'msg-param-sub-plan': ('1000', TEXT), 'msg-param-sub-plan-name': ('The\\sPlan', TEXT)}
GIFT = {'msg-param-months': ('2', NUM), 'msg-param-recipient-id': ('9', ID), 'msg-param-recipient-user-name': ('r', TEXT),
        'msg-param-recipient-display-name': ('R', TEXT), 'msg-param-gift-months': ('1', NUM), **PLAN}
SUB = {'msg-param-cumulative-months': ('5', NUM), 'msg-param-streak-months': ('3', NUM), 'msg-param-should-share-streak': ('1', FLAG), **PLAN}
MYSTERY = {'msg-param-mass-gift-count': ('20', NUM), 'msg-param-sender-count': ('100', NUM), 'msg-param-sub-plan': ('1000', TEXT)}
SENDER = {'msg-param-sender-login': ('g', TEXT), 'msg-param-sender-name': ('G', TEXT)}
EVENT = {
    'sub': SUB, 'resub': SUB,
    'raid': {'msg-param-viewerCount': ('6', NUM), 'msg-param-profileImageURL': ('https://x', TEXT), 'msg-param-displayName': ('X', TEXT)},
    'subgift': GIFT, 'anonsubgift': GIFT,
    'submysterygift': MYSTERY, 'anonsubmysterygift': MYSTERY,
    'giftpaidupgrade': {**SENDER, **PROMO}, 'anongiftpaidupgrade': PROMO,
    'ritual': {'msg-param-ritual-name': ('new_chatter', TEXT)},
    'bitsbadgetier': {'msg-param-threshold': ('10000', NUM)},
    'announcement': {'msg-param-color': ('PURPLE', COLOR)},
    'rewardgift': {},
}
NOTICE = {'badges': BADGED['badges'], 'badge-info': BADGED['badge-info'], 'color': ('#19E6E6', COLOR), 'emotes': ('25:0-4', EMOTES),
          'id': ('d831', ID), 'login': ('randers', TEXT), 'system-msg': ('randers\\ssaid', TEXT), **USER, **COMMON}


def user_notice(msg_id):
    return {**NOTICE, 'msg-id': (msg_id, MSGIDS), **EVENT[msg_id]}


KINDS = [
    ('PRIVMSG', {**BADGED, 'color': ('#19E6E6', COLOR), 'emotes': ('25:0-4', EMOTES), 'id': ('d831', ID), 'bits': ('1', NUM),
                 'msg-id': ('highlighted-message', TEXT), 'custom-reward-id': ('be22', ID), **USER, **COMMON, **REPLY, **PAID},
     'randers!randers@randers.tmi.twitch.tv', '#pajlada', 'hello there'),
    ('WHISPER', {**BADGED, 'color': ('#19E6E6', COLOR), 'emotes': ('25:0-4', EMOTES), 'message-id': ('1', ID), 'thread-id': ('1_2', ID), **USER},
     'randers!randers@randers.tmi.twitch.tv', 'randers811', 'hello'),
    ('CLEARCHAT', {'ban-duration': ('600', NUM), 'target-user-id': ('148973258', ID), **COMMON}, 'tmi.twitch.tv', '#pajlada', 'fabzeef'),
    ('CLEARMSG', {'login': ('alazymeme', TEXT), 'target-msg-id': ('3c92', ID), **COMMON}, 'tmi.twitch.tv', '#pajlada', 'lole'),
    ('ROOMSTATE', {'emote-only': ('1', FLAG), 'followers-only': ('10', NUM), 'r9k': ('0', FLAG), 'slow': ('5', NUM), 'subs-only': ('1', FLAG),
                   'room-id': ('40286300', ID), 'rituals': ('0', FLAG)}, 'tmi.twitch.tv', '#randers', None),
    ('USERSTATE', {**BADGED, 'color': ('#8A2BE2', COLOR), 'display-name': ('TESTUSER', TEXT), 'emote-sets': ('0,75c0', SETS)},
     'tmi.twitch.tv', '#randers', None),
    ('GLOBALUSERSTATE', {**BADGED, 'color': ('#8A2BE2', COLOR), 'emote-sets': ('0,75c0', SETS), **USER}, 'tmi.twitch.tv', None, None),
    ('JOIN', {}, 'randers811!randers811@randers811.tmi.twitch.tv', '#pajlada', None),
    ('PART', {}, 'randers811!randers811@randers811.tmi.twitch.tv', '#pajlada', None),
    ('NOTICE', {'msg-id': ('msg_banned', TEXT)}, 'tmi.twitch.tv', '#forsen', 'You are banned.'),
    ('PING', {}, 'tmi.twitch.tv', None, 'nonce'),
    ('PONG', {}, 'tmi.twitch.tv', None, 'nonce'),
    ('RECONNECT', {}, 'tmi.twitch.tv', None, None),
] + [('USERNOTICE', user_notice(m), 'tmi.twitch.tv', '#pajlada', 'text') for m in EVENT]
OTHERS = ['001', '002', '003', '004', '353', '366', '372', '375', '376', 'CAP', 'HOSTTARGET', 'privmsg', 'PRIVMSGX', 'PRIVMS', 'MODE', 'Ping',
          '421', 'é', 'WHISPERS', 'CLEAR', 'CLEARCHA', 'GLOBALUSERSTATES', 'STATE', '0001', '01']


def line(tags, prefix, command, channel, message):
    s = ''
    if tags is not None:
        s += '@' + ';'.join(f'{k}={v}' for k, v in tags) + ' '
    if prefix is not None:
        s += ':' + prefix + ' '
    s += command
    if channel is not None:
        s += ' ' + channel
    if message is not None:
        s += ' :' + message
    return s


def one_factor(kinds=None):
    """Every part absent, empty and with every value of its pool, all else as usual."""
    for c, spec, prefix, channel, message in KINDS:
        if kinds and c not in kinds:
            continue
        usual = [(k, v[0]) for k, v in spec.items()]
        yield line(usual, prefix, c, channel, message)
        yield line(None, prefix, c, channel, message)
        for n, (k, (_, pool)) in enumerate(spec.items()):
            yield line(usual[:n] + usual[n + 1:], prefix, c, channel, message)
            for v in pool:
                yield line(usual[:n] + [(k, v)] + usual[n + 1:], prefix, c, channel, message)
            # a second occurrence, and near misses of the name
            yield line(usual + [(k, 'second')], prefix, c, channel, message)
            yield line([(k, 'first')] + usual, prefix, c, channel, message)
            yield line([(k + 'x', '1')] + usual[:n] + usual[n + 1:] + [(k[:-1], '2'), (k.upper(), '3')], prefix, c, channel, message)
        for p in PREFIX:
            yield line(usual, p, c, channel, message)
        for ch in CHANNEL:
            yield line(usual, prefix, c, ch, message)
        for m in MESSAGE:
            yield line(usual, prefix, c, channel, m)
            if m is not None:
                # without the colon
                yield line(usual, prefix, c, channel, None) + ' ' + m
                yield line(usual, prefix, c, channel, None) + m
        yield line(usual, prefix, c, channel, message) + ' '
        yield line(usual, prefix, c, channel, None) + ' a :b :c'
    if not kinds:
        for c in OTHERS:
            for m in (None, '', 'x', 'CAP'):
                yield line([('a', 'b')], 'p', c, '#c', m)
                yield line(None, None, c, None, m)


def two_factor(rng, n, kinds=None):
    """Several parts changed at once; mostly usual values so that the lines stay interesting."""
    pool = [k for k in KINDS if not kinds or k[0] in kinds]
    for _ in range(n):
        c, spec, prefix, channel, message = rng.choice(pool)
        rate = rng.choice([.05, .15, .3, .6])
        tags = []
        for k, (usual, values) in spec.items():
            if rng.random() < rate * .4:
                continue
            tags.append((k, rng.choice(values) if rng.random() < rate else usual))
        if rng.random() < .3:
            rng.shuffle(tags)
        if rng.random() < .3:
            tags.insert(rng.randrange(len(tags) + 1), (rng.choice(['x', 'flags', 'mod', 'a', '', 'vip']), rng.choice(TEXT)))
        if tags and rng.random() < .1:
            k, _ = rng.choice(tags)
            tags.insert(rng.randrange(len(tags) + 1), (k, rng.choice(NUM + TEXT)))
        if rng.random() < .1 and c == 'USERNOTICE':
            tags = [(k, rng.choice(MSGIDS) if k == 'msg-id' else v) for k, v in tags]
        if rng.random() < .15 and c == 'USERNOTICE':
            tags = [(k, '274598607' if k == 'user-id' else v) for k, v in tags]
        yield line(tags, rng.choice(PREFIX) if rng.random() < rate else prefix, c,
                   rng.choice(CHANNEL) if rng.random() < rate else channel,
                   rng.choice(MESSAGE) if rng.random() < rate else message)


def universe(kinds=None):
    """Every known tag on one line, each with a value of its own; each part of the kind missing or empty in turn.
    Nothing may be taken from another tag instead."""
    from names import TAGS
    for c, spec, prefix, channel, message in KINDS:
        if kinds and c not in kinds:
            continue
        others = [(k, str(100 + i)) for i, k in enumerate(TAGS) if k not in spec]
        usual = [(k, v[0]) for k, v in spec.items()]
        yield line(others + usual, prefix, c, channel, message)
        yield line(others, prefix, c, channel, message)
        yield line(usual + others, None, c, channel, message)
        yield line(usual + others, prefix, c, None, message)
        yield line(usual + others, prefix, c, channel, None)
        for n, (k, _) in enumerate(usual):
            yield line(usual[:n] + others + usual[n + 1:], prefix, c, channel, message)
            yield line(usual[:n] + [(k, '')] + others + usual[n + 1:], prefix, c, channel, message)


def edited(rng, text, n=3):
    """The text with a character of 2, 3 or 4 bytes or an odd one put in somewhere or in place of another one, or with a part missing;
    always at both ends, and in n places between."""
    ends = {0, 1, len(text) - 1, len(text)}
    places = sorted(i for i in ends | set(rng.sample(range(len(text) + 1), min(n, len(text) + 1))) if 0 <= i <= len(text))
    for i in places:
        for c in 'é한😀':
            yield text[:i] + c + text[i:]
        yield text[:i] + rng.choice('é한😀') + text[i + 1:]
        yield text[:i] + rng.choice(ODD) + text[i:]
        yield text[:i] + rng.choice(ODD) + text[i + 1:]
        yield text[:i]
        yield text[i:]
        yield text[:i] + text[i + 1:]


def edges(rng, kinds=None, n=3):
    """Each part edited: where code looks at a byte, there may be no character boundary."""
    for c, spec, prefix, channel, message in KINDS:
        if kinds and c not in kinds:
            continue
        usual = [(k, v[0]) for k, v in spec.items()]
        for i, (k, (v, pool)) in enumerate(spec.items()):
            for t in edited(rng, v, n):
                yield line(usual[:i] + [(k, t)] + usual[i + 1:], prefix, c, channel, message)
            for t in edited(rng, rng.choice(pool), 0):
                yield line(usual[:i] + [(k, t)] + usual[i + 1:], prefix, c, channel, message)
        for t in edited(rng, prefix, n):
            yield line(usual, t, c, channel, message)
        if channel is not None:
            for t in edited(rng, channel, n):
                yield line(usual, prefix, c, t, message)
        for m in MESSAGE:
            if m is not None and len(m) < 40:
                for t in edited(rng, m, n):
                    yield line(usual, prefix, c, channel, t)
        for t in edited(rng, f' {channel or "bob"} :{message or "x"}', 10):
            yield line(usual, prefix, c, None, None) + t
        for t in edited(rng, c, n):
            yield line(usual, prefix, t, channel, message)


SIZES = [15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000]
LONG = [200, 400, 501, 520, 700, 1023, 1025, 2047, 2049, 4097]


def long_parts(rng, kinds=None):
    """Each part much longer than usual, in several ways: as one word, with escapes, as a list."""
    def texts(n):
        yield 'x' * n
        yield ('é\\s' * n)[:n]
        yield ','.join(f'n{i}/{i}' for i in range(n))
        yield '/'.join(f'{i}:0-{i}' for i in range(n // 4))
    for c, spec, prefix, channel, message in KINDS:
        if kinds and c not in kinds:
            continue
        usual = [(k, v[0]) for k, v in spec.items()]
        for n, (k, _) in enumerate(usual):
            for t in texts(rng.choice(SIZES)):
                yield line(usual[:n] + [(k, t)] + usual[n + 1:], prefix, c, channel, message)
            yield line(usual[:n] + [(k, '0' * rng.choice(SIZES) + '7')] + usual[n + 1:], prefix, c, channel, message)
            # An escape only at the start, only at the end, and everywhere, of a value longer than any usual one.
            x, y, z = rng.sample(LONG, 3)
            for t in ['\\s' + 'y' * x, 'y' * y + '\\:', ('a\\sé\\:' * z)[:z] + 'z']:
                yield line(usual[:n] + [(k, t)] + usual[n + 1:], prefix, c, channel, message)
        for z in rng.sample(SIZES, 4):
            t = 'ü' * z
            yield line(usual, f'{t}!{t}@{t}', c, channel, message)
            yield line(usual, prefix, c, channel and '#' + t, message)
            yield line(usual, prefix, c, channel, t)
            yield line(usual, prefix, c, channel, ACTION + t + '\x01')
            yield line([(f'p{i}', str(i)) for i in range(z)] + usual, prefix, c, channel, message)


def long_badges(rng, lists):
    """Badge and info lists of any length, with the info of a badge anywhere in it."""
    kinds = [k for k in KINDS if k[0] in ('PRIVMSG', 'WHISPER', 'USERSTATE', 'GLOBALUSERSTATE')] + [KINDS[-1]]
    for n in SIZES:
        for m in (n, 1, 3):
            for _ in range(lists):
                known = ['subscriber', 'founder', 'moderator', 'staff', 'predictions']
                info = [f'b{i}/i{i}' for i in range(n)]
                badges = [f'b{i}/{i}' for i in rng.sample(range(n), min(n, m))] + [f'{k}/1' for k in rng.sample(known, 2)]
                for k in known:
                    info.insert(rng.choice([len(info), rng.randrange(len(info) + 1)]), f'{k}/{rng.randrange(1, 99)}')
                rng.shuffle(badges)
                c, spec, prefix, channel, message = rng.choice(kinds)
                rest = [(k, v[0]) for k, v in spec.items() if k not in ('badges', 'badge-info')]
                yield line([('badges', ','.join(badges)), ('badge-info', ','.join(info))] + rest, prefix, c, channel, message)


def badge_lines(rng, n):
    """Every pair of a badge list and an info list, and longer random ones."""
    kinds = [k for k in KINDS if k[0] in ('PRIVMSG', 'WHISPER', 'USERSTATE', 'GLOBALUSERSTATE')] + [KINDS[-1]]
    def with_badges(kind, b, i, swap=False):
        c, spec, prefix, channel, message = kind
        rest = [(k, v[0]) for k, v in spec.items() if k not in ('badges', 'badge-info')]
        own = ([('badges', b)] if b is not None else []) + ([('badge-info', i)] if i is not None else [])
        if swap:
            return line(rest + own[::-1], prefix, c, channel, message)
        return line(own + rest, prefix, c, channel, message)
    m = 0
    for b in [None] + BADGES:
        for i in [None] + INFO:
            m += 1
            yield with_badges(kinds[m % len(kinds)], b, i, m % 3 == 0)
    names = ['subscriber', 'moderator', 'staff', 'turbo', 'broadcaster', 'a', 'b', 'vip', '', '한', 'subscribe', 'Staff']
    vals = ['1', '0', '12', '', 'x/y', '007', '99', 'é', '18446744073709551616']
    for _ in range(n):
        lst = lambda: ','.join(rng.choice(names) + ('/' + rng.choice(vals) if rng.random() < .9 else '') for _ in range(rng.randrange(8)))
        yield with_badges(rng.choice(kinds), lst(), lst(), rng.random() < .5)


def event_lines(rng, n):
    """Every message id with every user, whatever else is tagged."""
    every = {}
    for spec in EVENT.values():
        every.update(spec)
    # names and accounts which almost are the known ones
    near = {x for m in EVENT for x in (m[:-1], m[1:], m + 's', m + '2', m.upper(), m.title(), 'x' + m, 'anon' + m)} - set(MSGIDS)
    gifter = '274598607'
    users = [gifter[:-1], gifter[1:], gifter + '1', '1' + gifter, gifter + 'x', gifter[:-1] + '8', '0' + gifter, '+' + gifter, gifter + '\\s']
    for m in MSGIDS + sorted(near):
        for u in ['40286300', gifter, '0', '', None] + (users if 'gift' in m and m in MSGIDS else []):
            for missing in (None, 'login', 'display-name'):
                tags = [(k, v[0]) for k, v in {**NOTICE, **every}.items() if k != missing and k != 'user-id']
                tags += [('msg-id', m)] + ([('user-id', u)] if u is not None else [])
                yield line(tags, 'tmi.twitch.tv', 'USERNOTICE', '#c', 'x' if m else None)
    # what marks an anonymous gift, in any other place
    usual = {k: v[0] for k, v in {**NOTICE, **every}.items()}
    for m in [m for m in MSGIDS if 'gift' in m]:
        for k in usual:
            for t in [gifter, 'ananonymousgifter', 'AnAnonymousGifter', 'anonsubgift', m]:
                if k not in ('msg-id', 'user-id'):
                    yield line([*{**usual, k: t, 'msg-id': m}.items()], 'tmi.twitch.tv', 'USERNOTICE', '#c', 'x')
        for t in [gifter, 'ananonymousgifter']:
            yield line([*{**usual, 'msg-id': m}.items()], f'{t}!{t}@{t}.tmi.twitch.tv', 'USERNOTICE', '#' + t, t)
    yield from two_factor(rng, n, {'USERNOTICE'})


def tails(kinds=None, deep=4):
    """Everything short which may come after the command."""
    for c, spec, prefix, channel, message in KINDS:
        if kinds is None or c in kinds:
            for n in range(deep + 1):
                for t in itertools.product(' :#a', repeat=n):
                    yield line([(k, v[0]) for k, v in spec.items()], prefix, c, None, None) + ' ' + ''.join(t)


def same_parts(rng, kinds=None, most=10 ** 9):
    """Two parts of a line which carry the same text, and two which differ only in case."""
    for c, spec, prefix, channel, message in KINDS:
        if kinds and c not in kinds:
            continue
        usual = {k: v[0] for k, v in spec.items()}
        parts = [*usual, 'a nick', 'a channel', 'a message']
        pairs = [*itertools.combinations(parts, 2)]
        for a, b in rng.sample(pairs, min(most, len(pairs))):
            t = rng.choice(['bob', '1', usual.get(a) or '0', usual.get(b) or 'x', 'a\\sb'])
            x = {a: t, b: rng.choice([t, t, t.title(), t.upper()])}
            y = x.get('a nick')
            yield line([(k, x.get(k, v)) for k, v in usual.items()], prefix if y is None else f'{y}!{y}@{y}.tmi.twitch.tv', c,
                       '#' + x['a channel'] if 'a channel' in x and channel is not None else channel,
                       x.get('a message', message))


# ------------------------------------------------------------------ lookups and escapes

def lookups(rng, n, names):
    near = ['', 'a', 'login', 'Login', 'LOGIN', 'id', 'Id', 'msg-id', 'msg_id', 'msg-id ', 'x', 'badge', 'badges', 'badge-infos', 'r9k', 'R9K',
            'msg-param-months', 'user', 'user-i', 'user-ids', 'unknown', 'tmi-sent-tss', 'k', 'key', '한', '⸝']
    # all names at once, in order and twice
    yield {'k': 'lookup', 's': '@' + ';'.join(f'{k}=1{k}' for k in names) + ' PING', 'q': names + near}
    yield {'k': 'lookup', 's': '@' + ';'.join(f'{k}={i}' for i, k in enumerate(names + names)) + ' PING', 'q': names + near}
    yield {'k': 'lookup', 's': 'PING', 'q': names + near}
    for k in names + near:
        v = [k + 'x', k[:-1], k.upper(), k.title(), 'x' + k, k]
        yield {'k': 'lookup', 's': '@' + ';'.join(f'{t}={i}' for i, t in enumerate(v)) + f';{k}=last PING', 'q': [k] + v + ['nope']}
        yield {'k': 'lookup', 's': '@' + ';'.join(f'{t}={i}' for i, t in enumerate(v[:-1]) if t != k) + ' PING', 'q': [k] + v}
    for _ in range(n):
        ks = [rng.choice(rng.choice([names, near, names[:6]])) for _ in range(rng.choice([0, 1, 2, 5, 20, 60, 140]))]
        q = list(dict.fromkeys(rng.sample(names, 6) + rng.sample(near, 4) + ks[:10] + ks[-3:]))
        yield {'k': 'lookup', 's': '@' + ';'.join(f'{k}={rng.choice(TEXT)}' for k in ks) + rng.choice([' PING', ' :a!b@c PRIVMSG #d :e', ' ', '']),
               'q': q}


ESC = ['\\', ':', 's', 'r', 'n', ';', 'a', '⸝']


def escapes(rng, deep, n):
    for k in range(deep + 1):
        for p in itertools.product(ESC, repeat=k):
            yield ''.join(p)
    more = ESC + ['\\\\', '\\s', '\\:', ' ', ',', '\r', '\n', 'é', '한', '😀', '\0', 'x', 'S', '"', 'aaaaaaaaaaaaaaaa', '\u2e1c', '\u2e1e', '⸲', '，', '\\é']
    for _ in range(n):
        yield ''.join(rng.choice(more) for _ in range(rng.randrange(1, 24)))
    for n in list(range(0, 70)) + [255, 256, 1000, 5000]:
        for e in ['\\s', '\\', '⸝', '\\\\', '\\⸝']:
            yield 'a' * n + e + 'b'
            yield 'a' * n + e
            yield e * n
    for c in list(range(0, 0x180)) + list(range(0x2e00, 0x2e80)) + [0x3001, 0xff0c, 0xd7ff, 0xe000, 0xfffd, 0x10ffff]:
        yield '\\' + chr(c) + '\\s'
        yield chr(c)
        yield chr(c) + '\\'


# ------------------------------------------------------------------ per property

THOROUGH = 'thorough'


def unique(reqs):
    seen, out = set(), []
    for r in reqs:
        key = (r['k'], r.get('s'), tuple(r.get('q', ())))
        if key not in seen:
            seen.add(key)
            out.append(r)
    return out


def lines(rng, tier, share=1.0):
    """Raw lines."""
    deep = tier == THOROUGH
    f = (6 if deep else 1) * share
    yield from short_lines(6 if deep else 4)
    for _ in range(int(6000 * f)):
        yield ''.join(rng.choice(SHORT) for _ in range(rng.randrange(5, 10)))
    yield from prefixed_short(5 if deep else 4)
    yield from prefixes()
    yield from sweep(rng, 420 if deep else 150)
    if not deep:
        yield from sweep(rng, 420, 11)
    yield from dense(rng, int(2000 * f))
    yield from counts(list(range(0, 140, 1 if deep else 7)) + [1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 125, 126, 127, 128, 129, 130, 131,
                                                               254, 255, 256, 257, 258, 383, 384, 385, 511, 512, 513, 1000])
    yield from soup(rng, int(4000 * f))
    yield from shaped(rng, int(5000 * f))
    yield from CORPUS
    yield from mutants(rng, int(2500 * f))
    yield from every_char(rng, None if deep else max(1, int(6 * share)))
    yield from command_names()
    yield from one_factor()


def requests(prop, tier, seed):
    rng = random.Random(f'{prop}-{seed}')
    deep = tier == THOROUGH
    f = 6 if deep else 1
    L = lambda it: [{'k': 'line', 's': s} for s in it]
    Y = lambda it: [{'k': 'typed', 's': s} for s in it]
    big = [65534, 65535, 65536, 65537, 70000, 131071, 131072, 131080] if deep else [65535, 65536, 70000]
    if prop == 'C01':
        r = L(lines(rng, tier, .5)) + L(huge(big)) + L(counts([4000])) + L(many_tags())
        r += Y(long_parts(rng)) + Y(edges(rng, n=f)) + Y(one_factor()) + Y(CORPUS) + Y(two_factor(rng, 2500 * f)) + Y(mutants(rng, 2000 * f)) + Y(soup(rng, 500 * f)) + Y(huge(big[:1]))
    elif prop in ('C02', 'C05'):
        r = L(lines(rng, tier)) + L(huge(big)) + L(many_tags())
    elif prop == 'C04':
        r = L(lines(rng, tier)) + L(huge(big[:2]))
    elif prop == 'C06':
        r = L(lines(rng, tier, .3)) + Y(one_factor()) + Y(CORPUS) + Y(two_factor(rng, 2000 * f)) + Y(mutants(rng, 1000 * f)) + Y(badge_lines(rng, 300 * f)) + Y(
            long_parts(rng)) + Y(same_parts(rng, None, 60 * f)) + Y(long_badges(rng, 1)) + Y(universe()) + Y(edges(rng, n=f - 1))
    elif prop == 'C03':
        from names import TAGS
        r = [{'k': 'names'}] + list(lookups(rng, 1500 * f, TAGS)) + L(command_names())
    elif prop == 'C07':
        r = [{'k': 'unescape', 's': s} for s in escapes(rng, 6 if deep else 5, 6000 * f)]
    elif prop == 'C08':
        r = Y(one_factor()) + Y(two_factor(rng, 5000 * f)) + Y(CORPUS) + Y(mutants(rng, 2500 * f)) + Y(soup(rng, 500)) + Y(shaped(rng, 1500 * f)) + Y(
            event_lines(rng, 500 * f)) + Y(universe()) + Y(long_parts(rng)) + Y(same_parts(rng, None, 60 * f)) + Y(tails()) + Y(edges(rng))
    elif prop == 'C09':
        ks = {'PRIVMSG', 'WHISPER', 'NOTICE', 'JOIN', 'PART', 'PING', 'PONG'}
        r = [{'k': 'levels'}] + Y(one_factor(ks)) + Y(two_factor(rng, 7000 * f, ks)) + Y(universe(ks)) + Y(long_parts(rng, ks)) + Y(same_parts(rng, ks)) + Y(tails(ks)) + Y(edges(rng, ks, 3 * f)) + Y(CORPUS) + Y(mutants(rng, 1500 * f))
    elif prop == 'C10':
        ks = {'CLEARCHAT', 'CLEARMSG', 'ROOMSTATE', 'USERSTATE', 'GLOBALUSERSTATE'}
        r = Y(one_factor(ks)) + Y(two_factor(rng, 9000 * f, ks)) + Y(universe(ks)) + Y(long_parts(rng, ks)) + Y(same_parts(rng, ks)) + Y(tails(ks)) + Y(edges(rng, ks, 3 * f)) + Y(CORPUS) + Y(mutants(rng, 1500 * f))
    elif prop == 'C11':
        ks = {'USERNOTICE'}
        r = Y(one_factor(ks)) + Y(event_lines(rng, 7000 * f)) + Y(universe(ks)) + Y(long_parts(rng, ks)) + Y(same_parts(rng, ks)) + Y(tails(ks)) + Y(edges(rng, ks, 3 * f)) + Y(CORPUS) + Y(mutants(rng, 1500 * f))
    elif prop == 'C12':
        r = Y(badge_lines(rng, 5000 * f)) + Y(long_badges(rng, 2 * f)) + Y(one_factor({'PRIVMSG'})) + Y(edges(rng, {'USERSTATE'}, 6 * f)) + Y(CORPUS) + Y(mutants(rng, 1000 * f))
    elif prop == 'C13':
        r = Y(one_factor()) + Y(two_factor(rng, 3000 * f)) + Y(CORPUS) + Y(mutants(rng, 1000 * f)) + Y(badge_lines(rng, 500 * f)) + Y(
            event_lines(rng, 500 * f)) + Y(universe()) + Y(long_parts(rng)) + Y(same_parts(rng, None, 40 * f)) + Y(long_badges(rng, 1)) + Y(edges(rng, n=f - 1))
    return unique(r)
