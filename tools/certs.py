#!/usr/bin/env python3
"""Writes data/tls: two trusted roots, and the certificates of the peers of the TLS lane (needs the openssl command).
The result is committed, because signatures and serial numbers are random; the checks only read it."""
import base64, itertools, json, os, subprocess, tempfile
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'tls')
HOST = 'irc.chat.twitch.tv'
DATES = {'now': ('20200101000000Z', '20991231000000Z'), 'over': ('20000101000000Z', '20011231000000Z'),
         'later': ('20980101000000Z', '20991231000000Z')}
NAMES = {'host': [HOST], 'upper': ['IRC.Chat.Twitch.TV'], 'wild': ['*.chat.twitch.tv'], 'many': ['example.com', 'chat.twitch.tv', HOST],
         'parent': ['chat.twitch.tv'], 'sibling': ['pubsub.chat.twitch.tv'], 'other': ['example.com'], 'none': [],
         'suffix': [HOST + '.example.com'], 'prefix': ['a' + HOST], 'sub': ['a.' + HOST], 'wildwide': ['*.twitch.tv'],
         'wildsub': ['*.' + HOST], 'similar': ['irc-chat.twitch.tv'], 'ip': ['127.0.0.1'], 'longer': [HOST + 'x'], 'short': ['rc.chat.twitch.tv']}
ROOTS = ['A', 'B', 'C', 'fakeA', 'self']
VIAS = ['direct', 'ca', 'missing', 'notca', 'caover', 'calater', 'caother', 'two']
USES = ['server', 'none', 'client']
KEYS = ['own', 'other']


def main():
    with tempfile.TemporaryDirectory() as d:
        def ssl(*a, data=None):
            p = subprocess.run(['openssl', *a], cwd=d, input=data, capture_output=True)
            assert p.returncode == 0, (a, p.stderr.decode())
            return p.stdout

        def key(name):
            if not os.path.exists(f'{d}/{name}.key'):
                ssl('genpkey', '-algorithm', 'EC', '-pkeyopt', 'ec_paramgen_curve:P-256', '-out', name + '.key')

        def sign(name, subject, issuer, dates, ext, self_signed=False):
            key(name)
            ssl('req', '-new', '-key', name + '.key', '-subj', subject, '-out', name + '.csr')
            open(f'{d}/index.txt', 'w').close()
            with open(f'{d}/ca.cnf', 'w') as f:
                f.write('[ca]\ndefault_ca=x\n[x]\ndatabase=index.txt\nrand_serial=yes\nnew_certs_dir=.\ndefault_md=sha256\n'
                        'policy=p\nunique_subject=no\nemail_in_dn=no\n[p]\ncommonName=supplied\n[e]\n' + ext)
            who = ['-selfsign', '-keyfile', name + '.key'] if self_signed else ['-cert', issuer + '.pem', '-keyfile', issuer + '.key']
            ssl('ca', '-batch', '-config', 'ca.cnf', '-extensions', 'e', '-startdate', dates[0], '-enddate', dates[1],
                '-notext', '-in', name + '.csr', '-out', name + '.pem', *who)
            return base64.b64encode(ssl('x509', '-in', name + '.pem', '-outform', 'DER')).decode()

        CA = 'basicConstraints=critical,CA:TRUE\nkeyUsage=critical,keyCertSign,cRLSign\n'
        for r in 'ABC':
            sign('root' + r, f'/CN=Root {r}', None, DATES['now'], CA, True)
        sign('rootfakeA', '/CN=Root A', None, DATES['now'], CA, True)
        for name, which in (('roots', 'AB'), ('root-b', 'B'), ('root-c', 'C'), ('empty', '')):
            with open(f'{OUT}/{name}.pem', 'wb') as f:
                for r in which:
                    f.write(open(f'{d}/root{r}.pem', 'rb').read())
        cas = {}
        for r in ('A', 'B', 'C', 'fakeA'):
            cas[r, 'ca'] = cas[r, 'missing'] = (f'ca{r}', [sign(f'ca{r}', f'/CN=CA of {r}', 'root' + r, DATES['now'], CA)])
            cas[r, 'notca'] = (f'notca{r}', [sign(f'notca{r}', f'/CN=Not CA of {r}', 'root' + r, DATES['now'],
                                                  f'basicConstraints=CA:FALSE\nsubjectAltName=DNS:{HOST}\nextendedKeyUsage=serverAuth\n')])
            cas[r, 'caover'] = (f'caover{r}', [sign(f'caover{r}', f'/CN=Old CA of {r}', 'root' + r, DATES['over'], CA)])
            cas[r, 'calater'] = (f'calater{r}', [sign(f'calater{r}', f'/CN=New CA of {r}', 'root' + r, DATES['later'], CA)])
            cas[r, 'caother'] = (f'caother{r}', [sign(f'caother{r}', f'/CN=Other CA of {r}', 'root' + r, DATES['now'],
                                                      CA + 'nameConstraints=critical,permitted;DNS:example.com\n')])
            two = sign(f'two{r}', f'/CN=Second CA of {r}', f'ca{r}', DATES['now'], CA)
            cas[r, 'two'] = (f'two{r}', [two, cas[r, 'ca'][1][0]])
        key('leaf')
        leaf_key = base64.b64encode(ssl('pkcs8', '-topk8', '-nocrypt', '-in', 'leaf.key', '-outform', 'DER')).decode()
        key('wrong')
        wrong_key = base64.b64encode(ssl('pkcs8', '-topk8', '-nocrypt', '-in', 'wrong.key', '-outform', 'DER')).decode()

        peers = []
        base = dict(root='A', via='direct', names='host', dates='now', use='server', key='own')
        choices = dict(root=ROOTS, via=VIAS, names=list(NAMES), dates=list(DATES), use=USES, key=KEYS)
        combos = [base]
        for k, vs in choices.items():
            combos += [{**base, k: v} for v in vs]
        for (k, vs), (l, ws) in itertools.combinations(choices.items(), 2):
            combos += [{**base, k: v, l: w} for v in vs for w in ws]
        for c in combos:
            if c['root'] == 'self' and c['via'] != 'direct' or c in [p['is'] for p in peers]:
                continue
            names = NAMES[c['names']]
            ext = 'basicConstraints=CA:FALSE\n'
            if names:
                ext += 'subjectAltName=' + ','.join(('IP:' if n[0].isdigit() else 'DNS:') + n for n in names) + '\n'
            if c['use'] != 'none':
                ext += f'extendedKeyUsage={c["use"]}Auth\n'
            issuer, chain = cas.get((c['root'], c['via']), ('root' + c['root'], []))
            cn = HOST if c['names'] in ('none', 'other', 'ip') else 'peer'  # the common name does not count
            leaf = sign('leaf', f'/CN={cn}', issuer, DATES[c['dates']], ext, c['root'] == 'self')
            peers.append({'is': c, 'names': names, 'chain': [leaf] + ([] if c['via'] == 'missing' else chain)})
            if len(peers) % 100 == 0:
                print(len(peers))
        with open(f'{OUT}/peers.json', 'w') as f:
            f.write('{"own":"%s",\n"other":"%s",\n"peers":[\n' % (leaf_key, wrong_key))
            f.write(',\n'.join(json.dumps(p, separators=(',', ':')) for p in peers) + '\n]}\n')
        print(len(peers), 'peers')


main()
