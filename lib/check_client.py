"""C14..C25 (without C23): the client."""
import json, random
import common
from common import *
from client import *
import gen_client as g
import gen_tls
from check_tls import record

# property: models to check, models whose behaviours are replayed, random families with (quick, thorough) sizes
PLAN = {
    'C14': (['Law-builder'], [], [(g.configs, 4000, 40000)]),
    'C15': (['Connect'], ['Connect-gen'], [(g.handshakes, 6000, 80000)]),
    'C16': (['Reconnect', 'Law-backoff'], ['Reconnect-gen'], [(g.reconnects, 5000, 60000)]),
    'C17': (['Connect-live', 'Reconnect-live'], ['Connect-gen'], [(g.stalls, 4000, 40000), (g.reconnects, 2000, 20000)]),
    'C18': (['Stream', 'Law-utf8'], ['Stream-gen'], [(g.streams, 8000, 80000)]),
    'C19': (['Session'], ['Session-gen'], [(g.sessions, 3000, 40000)]),
    'C20': (['Law-say', 'Law-escape'], [], [(g.sends, 1500, 20000)]),
    'C21': (['Send'], ['Send-gen'], [(g.backpressure, 6000, 60000)]),
    'C22': (['Send'], [], [(g.secrets, 4200, 42000)]),
    'C24': (['Law-ping'], [], [(g.pings, 2000, 20000)]),
    'C25': (['Law-bypass'], [], [(g.bypasses, 5000, 60000)]),
}
SAMPLE = (8000, 100000)
# Also over real sockets and TLS: runs of spec/TlsMC.tla.
TLS = {'C15': (60, 900), 'C18': (150, 900), 'C19': (150, 900), 'C21': (150, 900), 'C22': (150, 900)}


def check(prop):
    thorough = common.TIER == 'thorough'
    rng = random.Random(SEED)
    models, gens, families = PLAN[prop]
    binaries = build(['client', 'tls'] if prop in TLS else ['client'])
    binary = binaries['client']
    d = scratch(prop)
    checked = check_models([deep(m) for m in models] if thorough else models)
    states, transitions = (sum(m[k] for m in checked.values()) for k in ('states', 'transitions'))
    scripts, made = [], {}
    for m in gens:
        r, total, ss = g.from_model(m, rng, SAMPLE[thorough])
        made[m] = {'behaviours': total, 'replayed': len(ss)}
        states, transitions = states + r.distinct, transitions + r.generated
        scripts += ss
    for make, quick, many in families:
        ss = make(rng, many if thorough else quick)
        made[make.__name__] = len(ss)
        scripts += ss
    scripts = [s if isinstance(s, dict) else s.d for s in scripts]
    whole = len(scripts)
    scripts, traces = answered(scripts, run(binary, scripts, d))
    log(f'{len(traces)} traces recorded, {sum(len(t["ev"]) for t in traces)} events')
    rejected, others, s, t = judge(prop, traces, d)
    log(f'judged, {len(rejected)} rejected' + (f', {len(others)} break other properties: {sorted(set(others.values()))}' if others else ''))
    if prop in TLS:
        tg = gen_tls.Gen(rng)
        r, total, more = tg.behaviours(TLS[prop][thorough], 0)
        made['Tls-gen'] = {'behaviours': total, 'replayed': len(more)}
        whole += len(more)
        more, real = answered(more, record(more, d, binaries['tls']))
        bad, _, s2, t2 = judge(prop, real, d, module='TlsTrace')
        log(f'{len(more)} runs over TLS, {len(bad)} rejected')
        states, transitions = states + r.distinct + s2, transitions + r.generated + t2
        rejected.update({n + len(scripts): x for n, x in bad.items()})
        scripts, traces = scripts + more, traces + real
    shutil.rmtree(d, ignore_errors=True)
    if len(traces) < whole and not rejected:
        raise ToolError(f'{whole - len(traces)} scripts were not run because others took too long')
    violations = []
    for n in sorted(rejected):
        at, why = rejected[n]
        violations.append((hashlib.sha256(json.dumps(scripts[n], sort_keys=True).encode()).hexdigest()[:16],
                           f'{prop} event {at}: {why}: {json.dumps(shown(traces[n]["ev"][at - 1]))[:300]}',
                           {'script': scripts[n], 'trace': traces[n], 'event': at, 'why': why}))
    events = {}
    for t_ in traces:
        for e in t_['ev']:
            k = e['e'] + (':' + e['k'] if e['e'] == 'ret' else '')
            events[k] = events.get(k, 0) + 1
    finish(prop, 'model_checking', {
        'states': states + s, 'transitions': transitions + t, 'traces_validated_against_impl': len(traces),
        'models': checked, 'scripts': made, 'events': events, 'longest_trace': max(len(t['ev']) for t in traces),
        'samples': [{'script': scripts[i]['steps'][:12] if 'steps' in scripts[i] else scripts[i],
                     'trace': [shown(e) for e in traces[i]['ev'][:12]]} for i in rng.sample(range(len(traces)), 2)],
    }, violations, ['connections are in-memory and time is virtual (cfg(tmi_verif)); one task polls the client'])

