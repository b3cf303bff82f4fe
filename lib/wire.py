"""Recording what the library answers for a list of requests, and judging it with spec/Wire.tla."""
import json, os, re, selectors, subprocess, time
from common import *


MANY_HANGS = 4


def codes(s):
    return [ord(c) for c in s]


def record(binary, requests, limit=60):
    """One list of [views, result] per request.  A crash or a hang is the answer to the request it met.
    After several hangs the rest is not asked (None)."""
    answers = [None] * len(requests)
    at = hangs = 0
    while at < len(requests):
        data = ''.join(json.dumps(r) + '\n' for r in requests[at:]).encode()
        inp = os.path.join(WORK, f'req-{os.getpid()}-{time.time_ns()}')
        with open(inp, 'wb') as f:
            f.write(data)
        with open(inp) as fin:
            p = subprocess.Popen([binary], stdin=fin, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            os.unlink(inp)
            got, buf, hung = at, b'', False
            sel = selectors.DefaultSelector()
            sel.register(p.stdout, selectors.EVENT_READ)
            while True:
                if not sel.select(timeout=limit):
                    hung = True
                    hangs += 1
                    limit = min(limit, 15)
                    p.kill()
                    break
                chunk = os.read(p.stdout.fileno(), 1 << 20)
                if not chunk:
                    break
                parts = (buf + chunk).split(b'\n')
                buf = parts.pop()
                for line in parts:
                    answers[got] = line.decode()
                    got += 1
            code = p.wait()
        if got < len(requests):
            if code == 101 or (code > 0 and not hung and code < 128):
                raise ToolError(f'{binary} failed with {code} on {requests[got]!r}'[:2000])
            answers[got] = json.dumps([[['all'], {'panic': True, 'how': 'hang' if hung else f'signal {-code}'}]])
            got += 1
            if hangs >= MANY_HANGS:
                break
        elif code != 0:
            raise ToolError(f'{binary} exited with {code}')
        at = got
    return answers


def record_all(bins, requests):
    """{build: answers}, each build split over several processes."""
    jobs = []
    per = max(1, 8 // len(bins))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(16) as ex:
        for c, b in bins.items():
            size = max(1, (len(requests) + per - 1) // per)
            for a in range(0, len(requests), size):
                jobs.append((c, ex.submit(record, b, requests[a:a + size])))
        out = {c: [] for c in bins}
        for c, j in jobs:
            out[c] += j.result()
    return out


def asked(requests, answers):
    """The requests which every build answered, and these answers."""
    some = [n for n in range(len(requests)) if all(a[n] is not None for a in answers.values())]
    return [requests[n] for n in some], {c: [a[n] for n in some] for c, a in answers.items()}


def merge_part(requests, answers):
    recs, table = [], {}
    for n, req in enumerate(requests):
        groups = {}
        for c, per in answers.items():
            for views, r in json.loads(per[n]):
                groups.setdefault(json.dumps(r, separators=(',', ':')), []).extend((c, v) for v in views)
        obs = [(table.setdefault(tuple(who), len(table)), r) for r, who in groups.items()]
        recs.append((req['k'], codes(req.get('s', '')), obs))
    return recs, list(table)


def merge(requests, answers):
    """Records of spec/Wire.tla as JSON texts, and the table of those who gave an answer."""
    from concurrent.futures import ProcessPoolExecutor
    size = max(1, (len(requests) + 7) // 8)
    spans = [(a, a + size) for a in range(0, len(requests), size)]
    table, recs, n = {}, [], 0
    with ProcessPoolExecutor(8) as ex:
        for part, whos in ex.map(merge_part, [requests[a:b] for a, b in spans],
                                 [{c: v[a:b] for c, v in answers.items()} for a, b in spans]):
            index = [table.setdefault(w, len(table) + 1) for w in whos]
            for k, s, obs in part:
                n += 1
                recs.append('{"i":%d,"k":"%s","s":%s,"obs":[%s]}' % (
                    n, k, s, ','.join('{"who":%d,"r":%s}' % (index[w], r) for w, r in obs)))
    return recs, list(table)


def judge(prop, recs, whos, d, chunk_bytes=100_000_000):
    """Indices (1-based) of the records which do not conform to property prop."""
    rejected, states, transitions, n = set(), 0, 0, 0
    at = 0
    who = os.path.join(d, f'who-{prop}.json')
    with open(who, 'w') as f:
        json.dump(whos, f)
    while at < len(recs):
        size, end = 0, at
        while end < len(recs) and (end == at or size + len(recs[end]) < chunk_bytes):
            size += len(recs[end])
            end += 1
        path = os.path.join(d, f'wire-{prop}-{n}.ndjson')
        with open(path, 'w') as f:
            f.write('\n'.join(recs[at:end]) + '\n')
        r = tlc('Wire', env={'WIRE_TRACE': path, 'WIRE_WHO': who, 'WIRE_PROPERTY': prop}, heap='16g',
                name=f'wire-{prop}')
        os.unlink(path)
        if r.distinct != end - at:
            print(r.out[-3000:])
            raise ToolError(f'TLC visited {r.distinct} of {end - at} records')
        rejected |= {int(x) for x in re.findall(r'<<"REJECT", (\d+)>>', r.out)}
        if r.out.count('"REJECT"') != len(re.findall(r'<<"REJECT", (\d+)>>', r.out)):
            raise ToolError('a rejection was not understood')
        states += r.distinct
        transitions += r.generated
        at, n = end, n + 1
    return rejected, states, transitions
