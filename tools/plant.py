#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ out of a description, after confirming it in a scratch copy of /repo:
the change compiles, passes the stable tests, and the demonstration tells the two apart.

    plant.py FILE.py      FILE.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (Rust), and
                          optionally FEATURES, DEPS (toml lines), RUSTFLAGS, FILES {name: text}
"""
import json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = '/tmp/tmi-plant'

SH = '''#!/bin/bash
# Builds a small program against the crate in the current directory and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=/tmp/tmi-demo-%(id)s
rm -rf /tmp/tmi-demo-%(id)s
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
tmi = { path = "$repo", default-features = false, features = [%(features)s] }
%(deps)s
EOF
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
export RUSTFLAGS="%(rustflags)s"
cd "$d" && cargo build --offline -q && timeout 120 ./target/debug/demo
code=$?
rm -rf /tmp/tmi-demo-%(id)s
exit $code
'''


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    env = {}
    exec(open(sys.argv[1]).read(), env)
    out = os.path.join(VERIF, 'seeded', env['ID'])
    os.makedirs(out, exist_ok=True)
    with open(f'{out}/demo.sh', 'w') as f:
        f.write(SH % {'id': env['ID'], 'features': ', '.join(f'"{x}"' for x in env.get('FEATURES', ['message-types', 'simd'])),
                      'deps': env.get('DEPS', ''), 'rustflags': env.get('RUSTFLAGS', '-C target-cpu=x86-64')})
    os.chmod(f'{out}/demo.sh', 0o755)
    with open(f'{out}/demo.rs', 'w') as f:
        f.write(env['DEMO'])
    for name, text in env.get('FILES', {}).items():
        open(f'{out}/{name}', 'w').write(text)
    json.dump({'property': env['PROPERTY'], 'needs': env['NEEDS'], 'what_it_breaks': env['BREAKS']}, open(f'{out}/meta.json', 'w'), indent=1)
    if not os.path.exists(COPY):
        run(f'cp -a /repo {COPY}', '/')
    run('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', COPY)
    p = run(f'bash {out}/demo.sh', COPY)
    print('demo unchanged:', p.returncode, p.stdout[-800:])
    assert p.returncode == 0
    for file, old, new in env['EDITS']:
        path = f'{COPY}/{file}'
        s = open(path).read()
        assert s.count(old) == 1, (file, old, s.count(old))
        open(path, 'w').write(s.replace(old, new))
    p = run('git diff', COPY)
    with open(f'{out}/patch.diff', 'w') as f:
        f.write(p.stdout)
    # the test script works in /repo: run the same commands here
    tests = run("sed 's#/repo#%s#g' /opt/vp/test.sh > /tmp/tmi-plant-test.sh; bash /tmp/tmi-plant-test.sh /tmp/tmi-plant-out.json" % COPY, COPY)
    result = json.load(open('/tmp/tmi-plant-out.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('stable') or base.get('passed') or base
    passed = set(result.get('passed', []))
    missing = [t for t in stable if t not in passed]
    print('tests:', len(passed), 'passed; stable ones missing:', missing[:5])
    assert not missing
    p = run(f'bash {out}/demo.sh', COPY)
    print('demo patched:', p.returncode, p.stdout[-800:])
    assert p.returncode != 0
    run('git checkout -q -- .', COPY)
    print('kept', env['ID'])


main()
