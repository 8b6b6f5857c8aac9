#!/usr/bin/env python3
"""plant.py SPECFILE...: validates planted bugs in a scratch copy of /repo and stores the good ones in /verif/seeded.
A spec file is Python: B(id, property, needs, breaks, [(file, old, new), ...], demo_main_rs)."""
import os, subprocess, sys, json, shutil
W = '/tmp/plant-wt'
S = '/verif/seeded/'
ENV = dict(os.environ, HOME='/root', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=W + '/target', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_TERM_COLOR='never', RUSTFLAGS='-Awarnings', RUST_BACKTRACE='0')
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def fresh():
    if not os.path.exists(W): sh(f'git clone -q /repo {W}')
    sh(f'git -C {W} fetch -q origin; git -C {W} reset -q --hard origin/HEAD; git -C {W} clean -qfd -e target')
    assert sh(f'git -C {W} rev-parse HEAD').stdout == sh('git -C /repo rev-parse HEAD').stdout
BASE = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.strip()
STABLE = json.load(open('/opt/vp/BASELINE.json'))
only = [a[1:] for a in sys.argv[1:] if a.startswith('=')]
def B(id, prop, needs, breaks, edits, demo):
    if only and id not in only: return
    fresh()
    added = set()
    for f, old, new in edits:
        p = f'{W}/src/core/{f}'
        t = open(p).read()
        if t.count(old) != 1:
            print(id, 'BAD: text found', t.count(old), 'times in', f); return
        open(p, 'w').write(t.replace(old, new))
    diff = sh(f'git -C {W} diff').stdout
    # lines removed must be original
    r = sh('cargo test --offline --workspace -- --test-threads 8', cwd=W, env=ENV)
    tl = [l for l in r.stdout.split('\n') if l.startswith('test result')]
    if r.returncode or not tl or ' 0 failed' not in tl[0]:
        print(id, 'BAD: tests', (r.stdout + r.stderr)[-1500:]); return
    d = S + id
    tmp = '/tmp/plant-demo'
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    shutil.copy('/verif/tools/demo.sh', tmp + '/demo.sh'); os.chmod(tmp + '/demo.sh', 0o755)
    open(tmp + '/main.rs', 'w').write('#![allow(unused)]\nuse geos_rs::sim::*;\n' + demo.strip() + '\n')
    r1 = sh(tmp + '/demo.sh', cwd=W)
    fresh()
    r0 = sh(tmp + '/demo.sh', cwd=W)
    if r0.returncode != 0 or r1.returncode in (0, 3):
        print(id, 'BAD: demo clean', r0.returncode, 'patched', r1.returncode, (r0.stdout + r0.stderr)[-800:], (r1.stdout + r1.stderr)[-400:]); return
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    print(id, 'ok:', (r1.stdout + r1.stderr).strip().split('\n')[-2:][0][:150], flush=True)
for a in sys.argv[1:]:
    if not a.startswith('='): exec(open(a).read())
