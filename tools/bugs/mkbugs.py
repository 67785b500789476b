#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the definitions in defs*.py and confirms each one in a scratch
copy of /repo: the patch applies, builds, the existing tests pass, the demo passes without it and
fails with it.  usage: mkbugs.py [id ...]"""
import glob, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
WT = '/tmp/mkbugs/repo'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='1.77.2', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', CARGO_TARGET_DIR=WT + '/target')

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def load():
    out = []
    for f in sorted(glob.glob(HERE + '/defs*.py')):
        ns = {}
        exec(compile(open(f).read(), f, 'exec'), ns)
        out += ns['BUGS']
    ids = [b['id'] for b in out]
    assert len(ids) == len(set(ids)), 'duplicate id'
    return out

def main():
    os.makedirs('/tmp/mkbugs', exist_ok=True)
    if os.path.exists(WT):
        shutil.rmtree(WT)
    sh(f'cp -a /repo {WT}')
    orig = {l for l in sh('git -C /repo diff --unified=0 72599c1 HEAD -- src').stdout.splitlines() if l.startswith('+')}
    want = sys.argv[1:]
    for b in load():
        if want and b['id'] not in want and not any(w.endswith('*') and b['id'].startswith(w[:-1]) for w in want):
            continue
        d = f"{ROOT}/seeded/{b['id']}"
        if os.path.exists(d):
            shutil.rmtree(d)
        os.makedirs(d)
        sh(f'git -C {WT} checkout -q -- .')
        if b.get('common', True):
            shutil.copy(HERE + '/common.rs', d)
            open(d + '/main.rs', 'w').write('#[macro_use]\nmod common;\nuse common::*;\n' + b['demo'])
        else:
            open(d + '/main.rs', 'w').write(b['demo'])
        t = open(HERE + '/demo.sh').read()
        if 'features' in b:
            t = t.replace('features = ["bin", "cbor", "json"]', b['features'])
        if 'deps' in b:
            t = t.replace('ring = "0.16.9"\n', 'ring = "0.16.9"\n' + b['deps'] + '\n')
        open(d + '/demo.sh', 'w').write(t)
        ok = []
        env = dict(ENV, DEMO_TARGET='/tmp/mkbugs/dt')
        r = sh(f'bash {d}/demo.sh', cwd=WT, env={k: v for k, v in env.items() if k not in ('CARGO_TARGET_DIR',)})
        if r.returncode != 0:
            print(b['id'], 'BAD: demo fails on unchanged tree', r.returncode, r.stderr[-1500:], r.stdout[-300:]); continue
        bad = None
        for f, old, new in b['edits']:
            p = f'{WT}/src/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                bad = f'{f}: old text found {s.count(old)} times: {old[:60]!r}'; break
            open(p, 'w').write(s.replace(old, new))
        if bad:
            print(b['id'], 'BAD:', bad); continue
        diff = sh(f'git -C {WT} diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        mine = [l for l in diff.splitlines() if l.startswith('-') and not l.startswith('---') and '+' + l[1:] in orig]
        removed = [l for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        r = sh('cargo test --workspace --all-features --no-fail-fast --locked --offline -- --include-ignored --test-threads 8', cwd=WT, env=ENV)
        res = [l for l in r.stdout.splitlines() if l.startswith('test result')]
        if r.returncode != 0 or sum(int(l.split()[3]) for l in res) < 51:
            print(b['id'], 'BAD: tests', [l for l in r.stdout.splitlines() if 'FAILED' in l][:6], [l for l in r.stderr.splitlines() if l.startswith('error')][:5], r.stderr[-800:] if not res else ''); continue
        r = sh(f'bash {d}/demo.sh', cwd=WT, env={k: v for k, v in env.items() if k not in ('CARGO_TARGET_DIR',)})
        if r.returncode in (0, 3):
            print(b['id'], 'BAD: demo with patch exits', r.returncode, r.stderr[-800:]); continue
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print(b['id'], b['property'], 'ok', f'exit {r.returncode}', (r.stderr.strip().splitlines() or ['?'])[-1][:110], f'[touches {len(mine)} of my own lines of {len(removed)}]' if mine or not removed else '', flush=True)
    sh(f'git -C {WT} checkout -q -- .')

main()
