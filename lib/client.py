"""Running scripts against the real client (harness/client) and judging the traces with spec/ClientTrace.tla."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import *

WINDOW = 6
MANY_HANGS = 3


def leaks_in(text, secrets):
    """Indices of the secrets of which a part occurs in a text."""
    low = text.lower()
    return [n for n, s in secrets if any(s[i:i + WINDOW] in low for i in range(len(s) - WINDOW + 1))]


def run_part(binary, scripts, d, n, limit, env):
    """The trace of each script.  After several which hang the rest is not run (None)."""
    inp, out, said = (os.path.join(d, f'{x}-{n}') for x in ('scripts', 'traces', 'said'))
    traces, at, hangs = [], 0, 0
    while at < len(scripts) and hangs < MANY_HANGS:
        with open(inp, 'w') as f:
            f.write('\n'.join(json.dumps(s) for s in scripts[at:]) + '\n')
        hung = False
        with open(inp) as fin, open(said, 'w') as err:
            p = subprocess.Popen([binary, out], stdin=fin, stdout=err, stderr=err,
                                 env={**os.environ, 'RUST_BACKTRACE': '0', **env})
            try:
                code = p.wait(timeout=limit)
            except subprocess.TimeoutExpired:
                hung = True
                hangs += 1
                limit = min(limit, 60)
                p.kill()
                code = p.wait()
        with open(out) as f:
            got = [l for l in f.read().split('\n') if l]
        got = [json.loads(l) for l in got[:len(scripts) - at]]
        with open(said, errors='replace') as f:
            text = f.read()
        if text:
            secrets = [(i, s['secret']) for i, s in enumerate(scripts[at:]) if s.get('secret')]
            for i in leaks_in(text, secrets):
                if i < len(got):
                    for e in got[i]['ev']:
                        if e['e'] == 'leaks':
                            e['where'].append('standard output or error')
        traces += got
        at += len(got)
        if at < len(scripts):
            if code in (0, 70):  # 70: the harness itself could not work
                raise ToolError(f'the client harness stopped with {code} at {json.dumps(scripts[at])[:1500]}\n{text[-1500:]}')
            # the process did not survive the script
            traces.append({'ev': [{'e': 'dead', 'how': 'hang' if hung else f'panic: {text[-300:]}' if code == 101 else f'signal {-code}'}]})
            at += 1
    for x in (inp, out, said):
        os.path.exists(x) and os.unlink(x)
    return traces + [None] * (len(scripts) - at)


def answered(scripts, traces):
    """The scripts which were run, and their traces."""
    some = [n for n, t in enumerate(traces) if t is not None]
    return [scripts[n] for n in some], [traces[n] for n in some]


def run(binary, scripts, d, limit=120, env={'SSL_CERT_FILE': os.path.join(VERIF, 'data', 'root.pem')}):
    scripts = [s if isinstance(s, dict) else s.d for s in scripts]
    size = max(1, (len(scripts) + 7) // 8)
    with ThreadPoolExecutor(8) as ex:
        jobs = [ex.submit(run_part, binary, scripts[a:a + size], d, a, limit, env) for a in range(0, len(scripts), size)]
        return [t for j in jobs for t in j.result()]


def judge(prop, traces, d, chunk_bytes=60_000_000, module='ClientTrace'):
    """{index: (event, why)} of the traces which break the property; the number judged; what else was broken."""
    rejected, others, states, transitions = {}, {}, 0, 0
    lines = ['{"i":%d,"ev":%s}' % (n + 1, json.dumps(t['ev'], separators=(',', ':'))) for n, t in enumerate(traces)]
    at = 0
    while at < len(lines):
        size, end = 0, at
        while end < len(lines) and (end == at or size + len(lines[end]) < chunk_bytes):
            size += len(lines[end])
            end += 1
        path = os.path.join(d, 'traces.ndjson')
        with open(path, 'w') as f:
            f.write('\n'.join(lines[at:end]) + '\n')
        r = tlc(module, env={'CLIENT_TRACE': path, 'CLIENT_PROPERTY': prop}, heap='16g', name=f'trace-{prop}')
        os.unlink(path)
        if r.distinct != end - at:
            print(r.out[-3000:])
            raise ToolError(f'TLC judged {r.distinct} of {end - at} traces')
        for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*"(.*?)"\s*>>\n', r.out, re.S):
            rejected[int(m[1]) - 1] = (int(m[2]), m[3])
        for m in re.finditer(r'<<\s*"OTHER",\s*(\d+),\s*\{([^}]*)\}\s*>>', r.out):
            others[int(m[1]) - 1] = m[2]
        if r.out.count('"REJECT"') != len([n for n in rejected if at <= n < end]):
            raise ToolError('a rejection was not understood: ' + r.out[r.out.index('"REJECT"'):][:1000])
        states += r.distinct
        transitions += sum(len(t['ev']) for t in traces[at:end])
        at = end
    return rejected, others, states, transitions


def shown(e):
    return {k: bytes(v).decode('utf8', 'replace') if isinstance(v, list) and v and all(isinstance(x, int) and x < 256 for x in v) and k != 'tries' else v
            for k, v in e.items()}
