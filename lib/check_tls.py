"""C23: whom the client talks to, over real sockets and TLS."""
import json, random
import common
from common import *
from client import answered, run, judge, shown
from gen_tls import *


def record(scripts, d, binary):
    """The traces of scripts, in their order."""
    traces = [None] * len(scripts)
    for store, pem in STORES.items():
        mine = [n for n, s in enumerate(scripts) if s['store'] == store]
        env = {'SSL_CERT_FILE': os.path.join(VERIF, 'data', 'tls', pem), 'TLS_PEERS': PEERS}
        for n, t in zip(mine, run(binary, [scripts[n] for n in mine], d, 300, env) if mine else []):
            traces[n] = t
    return traces


def check(prop):
    thorough = common.TIER == 'thorough'
    rng = random.Random(SEED)
    binary = build(['tls'])['tls']
    d = scratch(prop)
    checked = check_models([deep('Tls') if thorough else 'Tls'])
    g = Gen(rng)
    r, total, replayed = g.behaviours(10000 if thorough else 400, 200 if thorough else 24)
    made = {'behaviours': total, 'replayed': len(replayed)}
    scripts = replayed
    for name, more in (('stages', g.stages(1)), ('stores', g.stores(200 if thorough else 20))):
        made[name] = len(more)
        scripts += more
    # those which wait for a timeout side by side
    rng.shuffle(scripts)
    whole = len(scripts)
    scripts, traces = answered(scripts, record(scripts, d, binary))
    log(f'{len(traces)} traces recorded')
    rejected, others, s, t = judge(prop, traces, d, module='TlsTrace')
    if len(traces) < whole and not rejected:
        raise ToolError(f'{whole - len(traces)} scripts were not run because others took too long')
    log(f'judged, {len(rejected)} rejected' + (f', {len(others)} break other properties: {sorted(set(others.values()))}' if others else ''))
    shutil.rmtree(d, ignore_errors=True)
    violations = []
    for n in sorted(rejected):
        at, why = rejected[n]
        violations.append((hashlib.sha256(json.dumps(scripts[n], sort_keys=True).encode()).hexdigest()[:16],
                           f'{prop} event {at}: {why}: {json.dumps(shown(traces[n]["ev"][at - 1]))[:300]}',
                           {'script': scripts[n], 'trace': traces[n], 'event': at, 'why': why}))
    peers = {}
    for x in traces:
        for p in (x['ev'][0].get('peers') or []) if x['ev'][0]['e'] == 'build' else []:
            peers[p['mode']] = peers.get(p['mode'], 0) + 1
    finish(prop, 'model_checking', {
        'states': sum(m['states'] for m in checked.values()) + r.distinct + s,
        'transitions': sum(m['transitions'] for m in checked.values()) + r.generated + t,
        'traces_validated_against_impl': len(traces), 'models': checked, 'scripts': made, 'peers': peers,
        'samples': [{'script': {**scripts[i], 'peers': [p['mode'] for p in scripts[i]['peers']]},
                     'trace': [shown(e) for e in traces[i]['ev'][1:12]]} for i in rng.sample(range(len(traces)), 2)],
    }, violations, ['peers are processes on loopback addresses; names are resolved by the harness; rustls and the root store file are real'])
