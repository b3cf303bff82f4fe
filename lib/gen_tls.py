"""Scripts for the TLS lane: from the complete runs of spec/TlsMC.tla, and each kind of peer at each stage."""
import json, os, re
import common
from common import *

PEERS = os.path.join(VERIF, 'data', 'tls', 'peers.json')
STORES = {'AB': 'roots.pem', 'B': 'root-b.pem', 'C': 'root-c.pem', 'none': 'empty.pem'}
MODES = ['plain', 'reply', 'close', 'garbage', 'alert', 'http', 'half', 'cut']


def good(p, roots='AB'):
    i = p['is']
    return (i['root'] in roots and i['via'] in ('direct', 'ca', 'two') and i['dates'] == 'now' and i['use'] != 'client'
            and i['key'] == 'own' and i['names'] in ('host', 'upper', 'wild', 'many'))


class Gen:
    def __init__(self, rng):
        self.rng = rng
        with open(PEERS) as f:
            peers = json.load(f)['peers']
        self.good = {r: [n for n, p in enumerate(peers) if good(p, r)] for r in ('AB', 'B', 'C')}
        self.bad = [n for n in range(len(peers)) if n not in self.good['AB']]
        self.count = len(peers)
        self.turn = 0

    def line(self):
        r = self.rng
        return 'PING :' + ''.join(r.choice('ab :#@=;é!') for _ in range(r.choice([1, 5, 30])))

    def tls(self, cert, mode='tls'):
        return {'mode': mode, 'cert': cert, 'tls12': self.rng.random() < .4, 'fragment': self.rng.choice([1, 7, 60, 16384]), 'lines': []}

    def a_good(self, store='AB'):
        return self.tls(self.rng.choice(self.good[store]))

    def a_bad(self):
        """Each bad certificate and mode in turn."""
        self.turn += 1
        n = self.turn % (len(self.bad) + 3 * len(MODES))
        if n < len(self.bad):
            return self.tls(self.bad[n])
        return self.tls(self.rng.choice(self.good['AB']), MODES[n % len(MODES)])

    def cfg(self, tries, timeout=30000):
        r = self.rng
        name = ''.join(r.choice('abcdefghijkmnopqrstuvwxyz0123456789') for _ in range(12))
        token = ''.join(r.choice('abcdefghijkmnopqrstuvwxyz0123456789') for _ in range(30))
        if r.random() < .15:
            return {'login': '', 'token': None, 'tries': tries, 'timeout': timeout}
        return {'login': name, 'token': r.choice(['', 'oauth:']) + token, 'tries': tries, 'timeout': timeout}

    def op(self, o):
        r = self.rng
        return {'op': o, 'd': f'PRIVMSG #{r.choice("abc")} :' + 'x' * r.choice([1, 10, 10, 10, 100, 100, 20000])} if o == 'send' else {'op': o}

    def script(self, tries, peers, ops, store='AB', secret=True):
        hang = any(p['mode'] == 'hang' for p in peers)
        # Every line must be received: closing a socket with something left to read may discard what was sent.
        at, n = 0, None
        for o in ops:
            if o == 'recv':
                peers[n]['lines'].append(self.line())
            elif o != 'send':
                left = len(peers) if tries == [] or o == 'connect' else tries[0]
                while left and at < len(peers):
                    n, at, left = at, at + 1, left - 1
                    if o == 'connect' or peers[n]['mode'] == 'hang' or peers[n]['mode'] == 'tls' and peers[n]['cert'] in self.good['AB']:
                        break
        s = {'store': store, 'peers': peers, 'ops': [self.op(o) for o in ops], 'cfg': self.cfg(tries, 4000 if hang else 30000)}
        if s['cfg']['token']:
            s['secret'] = s['cfg']['token'].removeprefix('oauth:')
        return s

    def behaviours(self, limit, hangs):
        r = tlc('TlsMC', cfg='Tls-gen', name='Tls-gen')
        found = sorted(set(re.findall(r'"BEHAVIOUR (.*)"', r.out)))
        runs = [json.loads(json.loads('"' + x + '"')) for x in found]
        longer = {json.dumps((b['tries'], b['kinds'][:k], b['ops'][:n])) for b in runs for n in range(len(b['ops'])) for k in range(len(b['kinds']) + 1)}
        runs = [b for b in runs if json.dumps((b['tries'], b['kinds'], b['ops'])) not in longer]
        with_hang = [b for b in runs if 'hang' in b['kinds']]
        without = [b for b in runs if 'hang' not in b['kinds']]
        self.rng.shuffle(with_hang)
        self.rng.shuffle(without)
        chosen = without[:limit] + with_hang[:hangs]
        make = {'good': self.a_good, 'old': self.a_bad, 'hang': lambda: self.tls(0, 'hang')}
        return r, len(runs), [self.script(b['tries'], [make[k]() for k in b['kinds']], b['ops']) for b in chosen]

    def stages(self, every):
        """Each peer, bad and good, where it matters: at connect, and at reconnect after an established connection."""
        out = []
        peers = [self.tls(n) for n in range(self.count)] + [self.tls(n, m) for m in MODES for n in self.good['AB'][:3]]
        for p in peers[::every]:
            for tls12 in (False, True):
                p = dict(p, tls12=tls12, lines=[])
                out.append(self.script([1], [p], ['connect']))
                out.append(self.script([2], [self.a_good(), p, self.a_good()], ['connect', 'send', 'reconnect']))
        return out

    def stores(self, n):
        """Other sets of trusted roots."""
        out = []
        for store in ('B', 'C', 'none'):
            for _ in range(n):
                p = self.tls(self.rng.choice(self.rng.choice([self.good['AB'], self.good.get(store) or self.bad])))
                out.append(self.script([1], [p], ['connect'], store))
        return out
