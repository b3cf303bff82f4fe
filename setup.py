#!/usr/bin/env python3
"""Checks that the tools are there and that every specification parses; builds what the checks use."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
from common import *

os.makedirs(WORK, exist_ok=True)
os.makedirs(EVIDENCE, exist_ok=True)
have = [c for c in wire_builds(CONFIGS) if os.path.isdir(os.path.join(VERIF, 'harness', CONFIGS[c][0]))]
try:
    build(have)
except ToolError as e:
    print('#', e)
    sys.exit(1)
mods = sorted(f[:-4] for f in os.listdir(SPEC) if f.endswith('.tla'))
for m in mods:
    p = subprocess.run(['java', '-cp', JAR, 'tla2sany.SANY', m + '.tla'], cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-3000:])
        sys.exit(1)
log('specifications:', ' '.join(mods))
