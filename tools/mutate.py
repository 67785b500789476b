#!/usr/bin/env python3
"""Small mutations of /repo/src, made mechanically: those that compile and pass the existing tests
are given to the checks, to find what the checks do not look at.
usage: mutate.py [--workers N] [--scale X] [--only file] [--limit K] [--seed S] [--out FILE]
Scratch copies are made under /tmp/mut. Survivors are listed in FILE (JSON lines)."""
import argparse, json, os, queue, random, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('--workers', type=int, default=2)
ap.add_argument('--scale', default='0.15')
ap.add_argument('--only')
ap.add_argument('--limit', type=int, default=0)
ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--list', action='store_true')
ap.add_argument('--out', default='/tmp/mut/results.jsonl')
A = ap.parse_args()
TESTENV = dict(RUSTUP_TOOLCHAIN='1.77.2', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
               CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never')
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def body(f):
    s = open(f).read()
    return s
def mutants(path):
    rel = os.path.relpath(path, '/repo/src')
    lines = open(path).read().split('\n')
    end = len(lines)
    for i, l in enumerate(lines):
        if l.strip() == '#[cfg(test)]' and i + 1 < len(lines) and re.match(r'\s*(pub )?mod tests', lines[i + 1]):
            end = i
            break
    out = []
    def add(i, new, what):
        if new != lines[i]:
            out.append((rel, i, lines[i], new, what))
    rules = [
        (r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '),
        (r' < ', ' > '), (r' > ', ' < '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '),
        (r' && ', ' || '), (r' \|\| ', ' && '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
        (r'if !', 'if '), (r'if (?!let|!)', 'if !'), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'),
        (r'\.is_ok\(\)', '.is_err()'), (r'\.is_empty\(\)', '.is_empty() == false'),
        (r'= Some\(.*\);', '= None;'), (r'\.take\(\)', '.clone()'), (r'\* ', '/ '), (r'\bSome\(([a-z_]+)\)$', 'None'),
        (r'\.\.=', '..'), (r'_be_bytes', '_le_bytes'), (r'\bmax\b', 'min'), (r'\bmin\b', 'max'),
        (r'\.append\(', '.extend_from_slice('), (r'\?;$', ';'),
    ]
    for i in range(end):
        l = lines[i]
        t = l.strip()
        if not t or t.startswith('//') or t.startswith('use ') or t.startswith('#![') or t.startswith('pub use'):
            continue
        code = l.split('//')[0]
        if '"' in code and 'magic' not in code:
            pass
        for a, b in rules:
            for m in re.finditer(a, code):
                rep = m.expand(b) if '\\' in b else b
                add(i, l[:m.start()] + rep + l[m.end():], f'{a} -> {b}')
        for m in re.finditer(r'(?<![\w.])(\d[\d_]*)(?![\w.]*\w)(u\d+|usize)?', code):
            if t.startswith('#['):
                continue
            v = int(m.group(1).replace('_', '') or 0)
            for w in {v + 1, max(v - 1, 0)}:
                add(i, l[:m.start(1)] + str(w) + l[m.end(1):], f'{v} -> {w}')
        for m in re.finditer(r'0x([0-9A-Fa-f]{2})\b', code):
            add(i, l[:m.start(1)] + '%02x' % (int(m.group(1), 16) ^ 1) + l[m.end(1):], 'hex')
        if t.endswith(';') and not re.match(r'(let|return|use|pub|mod|const|static|type|\})', t) and t != '};':
            add(i, re.match(r'\s*', l).group() + '', 'statement deleted')
        if re.match(r'#\[zeroize', t):
            add(i, '', 'attribute deleted')
        m = re.match(r'(\s*)(\} else )?if (.*) \{$', code)
        if m and not m.group(3).startswith('let'):
            add(i, f'{m.group(1)}{m.group(2) or ""}if true || ({m.group(3)}) {{', 'if true')
            add(i, f'{m.group(1)}{m.group(2) or ""}if false && ({m.group(3)}) {{', 'if false')
        m = re.match(r'(\s*)(\w[\w:]*)\((.*), (.*)\)(.*)$', code)
        if m and m.group(3).count('(') == m.group(3).count(')') and not t.startswith('fn'):
            add(i, f'{m.group(1)}{m.group(2)}({m.group(4)}, {m.group(3)}){m.group(5)}', 'arguments swapped')
    # multi-line statements: deletions
    i = 0
    while i < end:
        t = lines[i].strip()
        if re.match(r'(self\.|[a-z_]+\.)[\w.]+\($', t) or re.match(r'(self\.[\w.]+|\*?\w+) = .*[({]$', t):
            ind = re.match(r'\s*', lines[i]).group()
            for j in range(i + 1, min(i + 14, end)):
                if lines[j].startswith(ind) and not lines[j].startswith(ind + ' ') and lines[j].strip().endswith(';'):
                    out.append((rel, i, '\n'.join(lines[i:j + 1]), '', 'statement deleted'))
                    break
        i += 1
    return out, lines
allm = []
for d, _, fs in os.walk('/repo/src'):
    for f in sorted(fs):
        if f.endswith('.rs') and (not A.only or A.only in os.path.join(d, f)):
            m, _ = mutants(os.path.join(d, f))
            allm += m
seen, uniq = set(), []
for m in allm:
    k = m[:4]
    if k not in seen:
        seen.add(k)
        uniq.append(m)
SRC = {m[0]: open(f'/repo/src/{m[0]}').read() for m in uniq}
random.Random(A.seed).shuffle(uniq)
done = set()
os.makedirs('/tmp/mut', exist_ok=True)
if os.path.exists(A.out):
    for l in open(A.out):
        j = json.loads(l)
        done.add((j['file'], j['line'], j['old'], j['new']))
uniq = [m for m in uniq if m[:4] not in done]
if A.limit:
    uniq = uniq[:A.limit]
print(len(uniq), 'mutants', flush=True)
if A.list:
    for m in uniq:
        print(m[0], m[1] + 1, m[4], '|', m[3].strip()[:100])
    sys.exit()
# first stage: those that compile and pass the tests
slots = queue.Queue()
for n in range(A.workers):
    d = f'/tmp/mut/{n}'
    sh(f'mkdir -p {d}/repo {d}/verif/evidence; rm -rf {d}/repo/src {d}/verif/harness/src; cp -a /repo/. {d}/repo/; cd {ROOT} && tar c --exclude=target --exclude=seeded --exclude=.git --exclude=evidence . | tar x -C {d}/verif')
    sh(f"sed -i 's#\"/repo\"#\"{d}/repo\"#' {d}/verif/harness/Cargo.toml {d}/verif/feat/Cargo.toml; git -C {d}/repo checkout -q -- .")
    slots.put(d)
ORDER = {'minimal.rs': 'C09 C10 C20 C06 C08 C12 C04 C14 C05 C01 C13 C19 C15 C11 C07 C18 C02 C16 C17 C03',
         'reader.rs': 'C12 C04 C07 C05 C11 C01 C02 C20 C10 C09 C08 C06', 'message.rs': 'C12 C11 C07 C02 C01 C04',
         'status.rs': 'C09 C08 C10 C20 C01', 'chacha20_poly1305_aead.rs': 'C02 C05 C07 C15 C11 C13 C19',
         'agreement.rs': 'C11 C13 C01 C08', 'seeds.rs': 'C19 C17', 'format.rs': 'C03 C16 C12', 'config.rs': 'C16 C11',
         'writer.rs': 'C16 C02 C15 C01 C11', 'serializer.rs': 'C03 C16 C10 C08', 'deserializer.rs': 'C03 C16 C12',
         'complete.rs': 'C01 C17 C20 C10 C14 C16 C02 C03 C15 C12'}
PROPS = [f'C{i:02}' for i in range(1, 24)]
def one(m):
    rel, i, old, new, what = m
    d = slots.get()
    res = dict(file=rel, line=i, old=old, new=new, what=what)
    try:
        p = f'{d}/repo/src/{rel}'
        src = SRC[rel]
        lines = src.split('\n')
        n = old.count('\n') + 1
        lines[i:i + n] = new.split('\n')
        open(p, 'w').write('\n'.join(lines))
        env = dict(os.environ, **TESTENV, CARGO_TARGET_DIR=f'{d}/repo/target')
        r = sh('timeout 120 cargo test --workspace --all-features --no-fail-fast --locked --offline -- --include-ignored --test-threads 8', cwd=f'{d}/repo', env=env)
        tot = [l for l in r.stdout.splitlines() if l.startswith('test result')]
        if r.returncode:
            res['state'] = 'tests' if tot else ('hang' if r.returncode == 124 else 'compile')
            return res
        order = ORDER.get(os.path.basename(rel), '').split()
        order += [p for p in PROPS if p not in order]
        env = dict(os.environ, CARGO_INCREMENTAL='1', VERIF_SCALE=A.scale, VERIF_THREADS=str(max(2, 10 // A.workers)))
        res['state'] = 'SURVIVED'
        t = time.time()
        for c in order:
            r = sh(f'timeout 600 bash check.sh {c} quick', cwd=f'{d}/verif', env=env)
            if r.returncode:
                res['state'] = f'{c} exit {r.returncode}'
                if r.returncode != 1:
                    res['note'] = (r.stderr or r.stdout)[-400:]
                    if r.returncode == 2 and 'error' in r.stderr and 'check error' not in r.stderr:
                        res['state'] = 'harness does not build'
                        break
                    continue
                break
        res['seconds'] = round(time.time() - t)
        return res
    finally:
        open(f'{d}/repo/src/{rel}', 'w').write(SRC[rel])
        slots.put(d)
with ThreadPoolExecutor(A.workers) as ex, open(A.out, 'a') as o:
    for k, r in enumerate(ex.map(one, uniq)):
        o.write(json.dumps(r) + '\n')
        o.flush()
        if r['state'] not in ('tests', 'compile'):
            print(k, r['state'], r['file'], r['line'] + 1, r['what'], '|', r['new'].strip()[:90] or r['old'].strip()[:90], r.get('seconds', ''), flush=True)
