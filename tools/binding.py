#!/usr/bin/env python3
"""Do the judges judge?  Records runs and answers of the real code, alters each in one place, and counts what is
rejected, by kind of alteration.  A report, not a check: some alterations (one byte less in a write, and more in
the next) give another behaviour which is allowed."""
import copy, json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
from common import *
import client, wire, gen_client as g, gen_tls, gen_wire
from check_tls import record

rng = random.Random(SEED)
CLIENT = ('open', 'w', 'f', 'ret', 'we', 'fe', 'block')


def bump(v):
    v = list(v)
    i = rng.randrange(len(v))
    v[i] = v[i] + 1 if v[i] != 255 else 0
    return v


def alter_run(ev, mine):
    """A copy of a trace with one event of the program altered, and how."""
    ev = copy.deepcopy(ev)
    at = [n for n, e in enumerate(ev) if e['e'] in mine]
    if not at:
        return None
    n = rng.choice(at)
    e = ev[n]
    ways = ['dropped', 'doubled']
    if isinstance(e.get('d'), list) and e['d']:
        ways += ['a byte differs', 'a byte is missing']
    if e['e'] == 'ret':
        ways += ['another result']
    if e.get('c', 1) and e['e'] in ('w', 'f') and e['c'] > 1:
        ways += ['another connection']
    if n + 1 < len(ev) and ev[n + 1] != e:
        ways += ['swapped']
    how = rng.choice(ways)
    if how == 'dropped':
        del ev[n]
    elif how == 'doubled':
        ev.insert(n, copy.deepcopy(e))
    elif how == 'a byte differs':
        e['d'] = bump(e['d'])
    elif how == 'a byte is missing':
        del e['d'][rng.randrange(len(e['d']))]
    elif how == 'another result':
        e['k'] = rng.choice([k for k in ('ok', 'Timeout', 'Auth', 'Closed', 'Open') if k != e['k']])
    elif how == 'another connection':
        e['c'] -= 1
    else:
        ev[n], ev[n + 1] = ev[n + 1], ev[n]
    return f"{e['e']} {how}", ev


def leaves(v, path=()):
    if isinstance(v, dict):
        for k, x in v.items():
            yield from leaves(x, path + (k,))
    elif isinstance(v, list):
        yield path, 'list'
        for n, x in enumerate(v):
            if isinstance(x, (dict, list)):
                yield from leaves(x, path + (n,))
    elif isinstance(v, (bool, str)):
        yield path, 'value'


def alter_answer(rec):
    """One answer altered in one field."""
    rec = copy.deepcopy(rec)
    o = rng.choice(rec['obs'])
    found = list(leaves(o['r']))
    if not found:
        return None
    path, what = rng.choice(found)
    if not path:
        return None
    at = o['r']
    for k in path[:-1]:
        at = at[k]
    v = at[path[-1]]
    if what == 'list':
        if v and all(isinstance(x, int) and not isinstance(x, bool) for x in v):
            at[path[-1]] = bump(v)
        elif v:
            del v[rng.randrange(len(v))]
        else:
            return None
    elif isinstance(v, bool):
        at[path[-1]] = not v
    else:
        at[path[-1]] = v + 'x'
    return '.'.join(str(k) for k in path if not isinstance(k, int))[:40], rec


def table(title, made, noticed):
    print(title)
    for how in sorted(made):
        print(f'  {how}: {noticed.get(how, 0)} of {made[how]}')
    print(f'  in all: {sum(noticed.values())} of {sum(made.values())}', flush=True)


def runs(title, traces, judge_as, module, mine, d):
    altered = [a for a in (alter_run(t['ev'], mine) for t in traces) if a]
    rejected, others, _, _ = client.judge(judge_as, [{'ev': ev} for _, ev in altered], d, module=module)
    made, noticed = {}, {}
    for n, (how, _) in enumerate(altered):
        made[how] = made.get(how, 0) + 1
        if n in rejected or n in others:
            noticed[how] = noticed.get(how, 0) + 1
    table(title, made, noticed)


def main():
    bins = build(['client', 'tls', 'scalar'])
    d = scratch('binding')
    scripts = []
    for make in (g.handshakes, g.reconnects, g.streams, g.backpressure, g.sends, g.sessions, g.stalls):
        scripts += rng.sample(make(rng, 400), 400)
    scripts = [s if isinstance(s, dict) else s.d for s in scripts]
    runs('client', client.run(bins['client'], scripts, d), 'C15', 'ClientTrace', CLIENT, d)
    tg = gen_tls.Gen(rng)
    scripts = tg.behaviours(300, 0)[2] + tg.stages(4)
    runs('tls', record(scripts, d, bins['tls']), 'C15', 'TlsTrace', ('ret', 'resolve', 'tcp', 'shook', 'app', 'raw'), d)
    for prop in ('C02', 'C03', 'C04', 'C07', 'C09', 'C10', 'C11', 'C12'):
        reqs = gen_wire.requests(prop, 'quick', SEED)
        reqs = rng.sample([r for r in reqs if len(r.get('s', '')) < 3000], 1500)
        recs, whos = wire.merge(reqs, wire.record_all({'scalar': bins['scalar']}, reqs))
        altered = [a for a in (alter_answer(json.loads(r)) for r in recs) if a]
        for n, (_, r) in enumerate(altered):
            r['i'] = n + 1
        rejected, _, _ = wire.judge(prop, [json.dumps(r, separators=(',', ':')) for _, r in altered], whos, d)
        made, noticed = {}, {}
        for n, (how, _) in enumerate(altered):
            made[how] = made.get(how, 0) + 1
            if n + 1 in rejected:
                noticed[how] = noticed.get(how, 0) + 1
        table(prop, made, noticed)
    shutil.rmtree(d, ignore_errors=True)


main()
