"""C01..C13: the parser and the typed messages."""
import json, random
import common
from common import *
from wire import *
import gen_wire

BUILDS = {'C03': ['scalar', 'avx2'], 'C07': ['scalar'], 'C12': ['scalar', 'avx2'],
          **{p: ['scalar', 'sse2', 'avx2', 'neon'] for p in ('C01', 'C02', 'C04', 'C05')}}
MODELS = {'C01': ['Machine'], 'C02': ['Machine', 'Chunks'], 'C04': ['Machine'], 'C05': ['Chunks'], 'C07': ['Law-escape'],
          'C08': ['Law-lines'], 'C09': ['Law-lines'], 'C10': ['Law-lines'], 'C11': ['Law-lines'], 'C12': ['Law-lines']}


def check(prop):
    tier = common.TIER
    bins = build(wire_builds(BUILDS.get(prop, ['scalar', 'sse2', 'avx2'])))
    models = MODELS.get(prop, [])
    checked = check_models([deep(m) for m in models] if tier == 'thorough' else models)
    reqs = gen_wire.requests(prop, tier, SEED)
    log(f'{len(reqs)} inputs')
    d = scratch(prop)
    violations, states, meaningful, answers_seen, skipped = [], 0, 0, 0, 0
    step = 40000
    for at in range(0, len(reqs), step):
        whole = reqs[at:at + step]
        part, answers = asked(whole, record_all(bins, whole))
        skipped += len(whole) - len(part)
        recs, whos = merge(part, answers)
        log(f'recorded {len(part)}, {sum(map(len, recs))} bytes')
        rejected, s, t = judge(prop, recs, whos, d)
        log(f'judged, {len(rejected)} rejected')
        states += s
        answers_seen = max([answers_seen, *map(len, whos)])
        meaningful += sum(1 for q, r in zip(part, recs) if '"ok":true' in r or '"f":' in r or (q['k'] not in ('line', 'typed') and q.get('s') != ''))
        for n in sorted(rejected):
            req = part[n - 1]
            rec = json.loads(recs[n - 1])
            answers = [{'who': whos[o['who'] - 1], 'result': o['r']} for o in rec['obs']]
            violations.append((key_of(req), f'{prop} {req["k"]} {req.get("s", "")[:200]!r}', {'request': req, 'answers': answers}))
        if skipped and violations:
            break
    if skipped and not violations:
        raise ToolError(f'{skipped} inputs were not asked because others took too long')
    shutil.rmtree(d, ignore_errors=True)
    kinds = {}
    for r in reqs:
        kinds[r['k']] = kinds.get(r['k'], 0) + 1
    rng = random.Random(SEED)
    total = lambda k: sum(m[k] for m in checked.values())
    model = {'states': total('states') + states, 'transitions': total('transitions') + states, 'models': checked,
             'traces_validated_against_impl': states} if checked else {}
    finish(prop, 'model_checking' if checked else 'exploration', {
        **model,
        'evaluations': len(reqs), 'distinct_nontrivial': meaningful,
        'rule': 'inputs are distinct; one is non-trivial if the specification gives it a message (or, for lookups, '
                'escapes and tables, if it is not empty)',
        'samples': [r.get('s', '')[:300] for r in rng.sample(reqs, min(6, len(reqs)))],
        'by_kind': kinds, 'builds': list(bins), 'records_judged_by_tlc': states,
        'longest_input': max(len(r.get('s', '')) for r in reqs),
        'answers_per_input': answers_seen,
    }, violations)


def key_of(req):
    return hashlib.sha256(json.dumps(req, sort_keys=True).encode()).hexdigest()[:16]
