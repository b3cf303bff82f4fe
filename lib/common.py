"""Paths, builds, TLC runs and evidence files shared by all checks."""
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
WORK = os.path.join(VERIF, 'work')
EVIDENCE = os.path.join(VERIF, 'evidence')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
START = time.time()


class ToolError(Exception):
    """Something other than the code under test went wrong."""


def log(*a):
    print('#', f'[{time.time() - START:6.1f}s]', *a, flush=True)


def cpu_has(flag):
    with open('/proc/cpuinfo') as f:
        return any(flag in line.split() for line in f if line.startswith('flags'))


# ---------------------------------------------------------------- builds

SSE2 = '-C target-cpu=x86-64'
AVX2 = '-C target-cpu=x86-64 -C target-feature=+avx2'
CONFIGS = {
    # name: (harness, cargo arguments, RUSTFLAGS)
    'scalar': ('wire', [], SSE2),
    'sse2': ('wire', ['--features', 'simd'], SSE2),
    'avx2': ('wire', ['--features', 'simd'], AVX2),
    'neon': ('wire', ['--features', 'simd'], SSE2),
    'client': ('client', [], SSE2 + ' --cfg tmi_verif'),
    'tls': ('tls', [], SSE2),
}


def neon_tree():
    """A copy of the crate with its aarch64 parts enabled on this machine (see harness/neon.rs), and the harness on it."""
    tree = os.path.join(BUILD, 'neon', 'tree')
    h = hashlib.sha256(repo_hash().encode())
    for d, _, fs in sorted(os.walk(os.path.join(VERIF, 'harness'))):
        if 'target' not in d:
            for f in sorted(fs):
                h.update(open(os.path.join(d, f), 'rb').read())
    stamp = os.path.join(BUILD, 'neon', 'tree-hash')
    if os.path.exists(stamp) and os.path.isdir(tree) and open(stamp).read() == h.hexdigest():
        return os.path.join(tree, 'wire')
    shutil.rmtree(tree, ignore_errors=True)
    shutil.copytree(os.path.join(VERIF, 'harness', 'wire'), os.path.join(tree, 'wire'),
                    ignore=shutil.ignore_patterns('target'))
    path = os.path.join(tree, 'wire', 'Cargo.toml')
    text = open(path).read()
    open(path, 'w').write(text.replace('../../../repo', '../tmi'))
    for f in ('Cargo.toml', 'README.md'):
        os.makedirs(os.path.join(tree, 'tmi'), exist_ok=True)
        shutil.copy(os.path.join(REPO, f), os.path.join(tree, 'tmi', f))
    with open(os.path.join(tree, 'tmi', 'Cargo.toml')) as f:
        manifest = f.read()
    # targets which are not copied
    manifest = re.sub(r'(?ms)^\[\[(bench|example)\]\].*?(?=^\[|\Z)', '', manifest)
    with open(os.path.join(tree, 'tmi', 'Cargo.toml'), 'w') as f:
        f.write(manifest)
    shutil.copytree(os.path.join(REPO, 'src'), os.path.join(tree, 'tmi', 'src'))
    for d, _, fs in os.walk(os.path.join(tree, 'tmi', 'src')):
        for f in fs:
            if f.endswith('.rs'):
                path = os.path.join(d, f)
                text = open(path).read()
                for old, new in (('target_arch = "x86_64"', 'target_arch = "x86"'),
                                 ('target_arch = "aarch64"', 'target_arch = "x86_64"'),
                                 ('target_feature = "neon"', 'target_feature = "sse2"'),
                                 ('core::arch::aarch64', 'crate::neon_operations'),
                                 ('std::arch::aarch64', 'crate::neon_operations')):
                    text = text.replace(old, new)
                if f == 'lib.rs' and d.endswith('src'):
                    text += '\n#[cfg(feature = "simd")]\nmod neon_operations;\n'
                open(path, 'w').write(text)
    shutil.copy(os.path.join(VERIF, 'harness', 'neon.rs'), os.path.join(tree, 'tmi', 'src', 'neon_operations.rs'))
    with open(stamp, 'w') as f:
        f.write(h.hexdigest())
    return os.path.join(tree, 'wire')


def wire_builds(wanted):
    return [c for c in wanted if c != 'avx2' or cpu_has('avx2')]


def repo_hash():
    h = hashlib.sha256()
    files = ['Cargo.toml', 'README.md']
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        files += [os.path.relpath(os.path.join(d, f), REPO) for f in fs]
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        with open(os.path.join(REPO, f), 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()


def cargo_env(flags):
    env = dict(os.environ)
    for k in ('CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER'):
        env.pop(k, None)
    env.update(RUSTFLAGS=flags, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
               RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
    return env


def build(configs):
    """Build the harness in these configurations from /repo's working tree."""
    digest = repo_hash()
    procs = []
    for c in configs:
        harness, args, flags = CONFIGS[c]
        src = neon_tree() if c == 'neon' else os.path.join(VERIF, 'harness', harness)
        target = os.path.join(BUILD, c)
        stamp = os.path.join(target, 'repo-hash')
        env = cargo_env(flags)
        if os.path.exists(stamp) and open(stamp).read() != digest:
            # do not rely on file times to see a change
            subprocess.run(['cargo', 'clean', '--offline', '-p', 'tmi', '--target-dir', target], cwd=src, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.makedirs(target, exist_ok=True)
        with open(stamp, 'w') as f:
            f.write(digest)
        out = open(os.path.join(target, 'build.log'), 'w')
        procs.append((c, harness, target, subprocess.Popen(
            ['cargo', 'build', '--offline', '--locked', '--target-dir', target] + args,
            cwd=src, env=env, stdout=out, stderr=subprocess.STDOUT)))
    bins = {}
    for c, harness, target, p in procs:
        if p.wait() != 0:
            with open(os.path.join(target, 'build.log')) as f:
                text = f.read()
            if c == 'neon' and len(configs) > 1:
                # the copy uses something that harness/neon.rs lacks
                log('no NEON build:', re.findall('(?m)^error.*', text)[:3])
                continue
            print(text[-6000:])
            raise ToolError(f'building {c} failed')
        bins[c] = os.path.join(target, 'debug', harness)
    log('built', ' '.join(configs))
    return bins


# ---------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self, code, out):
        self.code, self.out = code, out
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        self.generated, self.distinct = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
        m = re.findall(r'The depth of the complete state graph search is (\d+)', out)
        self.depth = int(m[-1]) if m else 0


def tlc(module, cfg=None, env=None, workers=8, args=(), heap='6g', timeout=900, name=None, ok_codes=(0,), jvm=()):
    """Run TLC on spec/<module>.tla; a tool error is raised, a property violation is returned."""
    meta = os.path.join(WORK, 'tlc-' + (name or module) + f'-{os.getpid()}-{time.time_ns()}')
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss1g', *jvm, '-cp', JAR, 'tlc2.TLC',
           '-metadir', meta, '-workers', str(workers), '-config', (cfg or module) + '.cfg',
           '-noGenerateSpecTE', *args, module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           text=True, errors='replace')
    except subprocess.TimeoutExpired:
        raise ToolError(f'TLC {module} timed out after {timeout} s')
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult(p.returncode, p.stdout)
    if p.returncode not in ok_codes:
        print(p.stdout[:200000])
        raise ToolError(f'TLC {module} exited with {p.returncode}')
    return r


def check_models(names, limit=3000):
    """Model check these configurations of the specification; {name: what was explored}."""
    done = {}
    for m in names:
        env = {}
        if m.startswith('Law-lines'):
            env['LAWS_LINES'] = path = os.path.join(WORK, f'lines-{os.getpid()}.ndjson')
            os.makedirs(WORK, exist_ok=True)
            with open(os.path.join(VERIF, 'data', 'corpus.json')) as f, open(path, 'w') as out:
                for line in json.load(f):
                    out.write(json.dumps({'s': [ord(c) for c in line.rstrip('\r\n')]}) + '\n')
        module = 'Laws' if m.startswith('Law-') else 'TlsMC' if m.split('-')[0] == 'Tls' else 'Machine' if m.split('-')[0] in ('Machine', 'Chunks') else 'Models'
        r = tlc(module, cfg=m, env=env, name=m, heap='16g', timeout=limit)
        if env:
            os.unlink(path)
        log(f'{m}: {r.distinct} states, depth {r.depth}, no violation')
        done[m] = {'states': r.distinct, 'transitions': r.generated, 'depth': r.depth}
    return done


def deep(name):
    """The larger configuration of a model, if there is one."""
    return name + '-deep' if os.path.exists(os.path.join(SPEC, name + '-deep.cfg')) else name


# ---------------------------------------------------------------- results

def scratch(name):
    d = os.path.join(WORK, f'{name}-{os.getpid()}')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def known_findings(prop):
    """`finding: property=<id> key=<key> <what fails>` lines."""
    found = {}
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for line in f:
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m[1] == prop:
                found[m[2]] = m[3]
    return found


def finish(prop, level, coverage, violations, assumptions=()):
    """Write the evidence, print the verdict and leave.  violations: list of (key, what, replay data)."""
    known = known_findings(prop)
    new = [v for v in violations if v[0] not in known]
    for key, what in known.items():
        if any(v[0] == key for v in violations):
            print(f'KNOWN-FINDING: property={prop} {what}')
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = {'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': level,
          'coverage': coverage, 'assumptions': list(assumptions), 'wall_s': round(time.time() - START, 2),
          'violations': len(new)}
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if new:
        d = os.path.join(WORK, 'replay')
        os.makedirs(d, exist_ok=True)
        for n, (key, what, data) in enumerate(new[:20]):
            path = os.path.join(d, f'{prop}-{n}.json')
            with open(path, 'w') as f:
                json.dump({'property': prop, 'key': key, 'what': what, 'data': data}, f, indent=1, ensure_ascii=False)
            print(f'VIOLATION property={prop} replay={path}')
            print('#  ', what[:600])
        log(f'{len(new)} violations')
        sys.exit(1)
    log('no violation')
    sys.exit(0)
