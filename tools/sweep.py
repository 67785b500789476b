#!/usr/bin/env python3
"""Runs checks against planted bugs, in scratch copies of /repo and /verif under /tmp/sw.
usage: sweep.py [--all-checks] [--shuffle] [--workers N] [bug id or prefix* ... | FILE.diff[:C01,C02...] ...]
A diff file is a change that breaks nothing: the named checks (or all) have to stay quiet on it."""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import queue
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = os.environ.get('SWEEP_DIR', '/tmp/sw')
args = sys.argv[1:]
allc = '--all-checks' in args
shuffled = '--shuffle' in args
nw = int(args[args.index('--workers') + 1]) if '--workers' in args else 3
if '--workers' in args:
    del args[args.index('--workers'):args.index('--workers') + 2]
tier = 'quick'
want = [a for a in args if not a.startswith('--')]
ids = sorted(os.listdir(f'{ROOT}/seeded'))
diffs = [w for w in want if '.diff' in w]
want = [w for w in want if '.diff' not in w]
if want or diffs:
    ids = [i for i in ids if any(i == w or (w.endswith('*') and i.startswith(w[:-1])) for w in want)]
if shuffled:
    import random
    random.shuffle(ids)
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
ids += [x for w in diffs for x in ([f"{w.split(':')[0]}:{q}" for q in w.split(':')[1].split(',')] if ':' in w else [w])]
slots = queue.Queue()
for n in range(nw):
    d = f'{SW}/{n}'
    os.makedirs(d, exist_ok=True)
    sh(f'rsync -a --delete --exclude target /repo/ {d}/repo/ || (rm -rf {d}/repo; mkdir -p {d}/repo; cd /repo && tar c --exclude=target . | tar x -C {d}/repo)')
    sh(f'mkdir -p {d}/verif; rm -rf {d}/verif/harness/src {d}/verif/feat/src; cd {ROOT} && tar c --exclude=target --exclude=./feat/bin --exclude=seeded --exclude=.git --exclude=evidence . | tar x -C {d}/verif; mkdir -p {d}/verif/evidence')
    sh(f"sed -i 's#\"/repo\"#\"{d}/repo\"#' {d}/verif/harness/Cargo.toml {d}/verif/feat/Cargo.toml")
    slots.put(d)
props = [json.loads(l)['id'] for l in open(f'{ROOT}/properties.jsonl')]
def one(b):
    d = slots.get()
    try:
        quiet = '.diff' in b
        file = b.split(':')[0] if quiet else f'{ROOT}/seeded/{b}/patch.diff'
        meta = {'property': b.split(':')[1] if ':' in b else 'none'} if quiet else json.load(open(f'{ROOT}/seeded/{b}/meta.json'))
        sh(f'git -C {d}/repo checkout -q -- .')
        r = sh(f'git -C {d}/repo apply {file}')
        if r.returncode:
            return b, meta['property'], {'apply': r.stderr}
        out = {}
        for p in (props if allc or meta['property'] == 'none' else [meta['property']]):
            t = time.time()
            r = sh(f'timeout 900 bash check.sh {p} quick', cwd=f'{d}/verif', env=dict(os.environ, CARGO_INCREMENTAL='1'))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            msg = ''
            if r.returncode == 1 and v:
                try:
                    rp = v[0].split('replay=')[1]
                    j = json.load(open(rp if rp.startswith('/') else f'{d}/verif/{rp}'))
                    msg = f"{j.get('part')}: {str(j.get('why') or j.get('message'))[:90]}"
                except Exception as e:
                    msg = v[0]
            out[p] = (r.returncode, round(time.time() - t), msg or (r.stderr or r.stdout)[-200:] if r.returncode else '')
        sh(f'git -C {d}/repo checkout -q -- .')
        return b, meta['property'], out
    finally:
        slots.put(d)
res = {}
with ThreadPoolExecutor(nw) as ex:
    for b, p, out in ex.map(one, ids):
        own = out.get(p, ('?',))
        caught = [q for q, o in out.items() if isinstance(o, tuple) and o[0] == 1]
        odd = [(q, o) for q, o in out.items() if isinstance(o, tuple) and o[0] not in (0, 1)]
        print(b, p, 'CAUGHT' if own[0] == 1 else f'MISSED {own}', own[1:] if own[0] == 1 else '', 'by ' + ' '.join(caught) if allc else '', odd or '', flush=True)
        res[b] = {'property': p, 'caught_by': caught}
old = {}
f = f'{SW}/results.json'
if os.path.exists(f):
    old = json.load(open(f))
for b in res:
    if not allc and b in old:
        continue
    old[b] = res[b]
json.dump(old, open(f, 'w'), indent=1)
