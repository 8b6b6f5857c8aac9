#!/usr/bin/env python3
"""try_par.py [-j N] [ID...]: tries planted bugs N at a time, each in a mount namespace of its own where /repo and /verif/sim/target are scratch copies. Developer tool."""
import os, subprocess, sys, json, shutil, time
from concurrent.futures import ThreadPoolExecutor
S = '/verif/seeded/'
a = sys.argv[1:]
j = 3
if a[:1] == ['-j']: j = int(a[1]); a = a[2:]
ids = a or sorted(os.listdir(S))
def one(id):
    m = json.load(open(S + id + '/meta.json')); p = m['property']
    d = f'/tmp/try-{id}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo']); shutil.rmtree(d + '/repo/target', ignore_errors=True)
    subprocess.run(['rsync', '-a', '--exclude', 'seeded', '--exclude', '.git', '/verif/', d + '/verif/']) if shutil.which('rsync') else subprocess.run(f'mkdir {d}/verif && cd /verif && cp -a $(ls -A | grep -v -e "^seeded$" -e "^.git$") {d}/verif/', shell=True)
    r = subprocess.run(['git', '-C', d + '/repo', 'apply', S + id + '/patch.diff'], capture_output=True, text=True)
    if r.returncode: return f'{id} {p} DOES-NOT-APPLY {r.stderr[:200]}'
    s = time.time()
    r = subprocess.run(['unshare', '-m', 'bash', '-c', f'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && timeout 900 ./check.sh {p}'], capture_output=True, text=True)
    o = r.stdout + r.stderr
    v = [l for l in o.split('\n') if f'VIOLATION property={p}' in l]
    l = o.split('\n')
    msg = ''
    for i, x in enumerate(l):
        if 'VIOLATION' in x: msg = l[i-1][:160]; break
    shutil.rmtree(d, ignore_errors=True)
    return f'{id} {p} rc={r.returncode} {time.time()-s:.0f}s {"CAUGHT" if r.returncode == 1 and v else "MISSED"} {msg}'
with ThreadPoolExecutor(j) as ex:
    for r in ex.map(one, ids): print(r, flush=True)
