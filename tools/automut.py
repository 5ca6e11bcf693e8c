#!/usr/bin/env python3
"""automut.py WORKDIR PART PARTS: small systematic changes to /repo's sources, in copies under WORKDIR.

For each change that compiles and passes the existing tests, runs the checks with few cases until one objects.
Writes WORKDIR/PART.log, one line per change: KILLED-BY-TESTS is left out, CAUGHT id, SURVIVED.
"""
import os, re, subprocess, sys, shutil, random
work, part, parts = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
ROOT = f'{work}/w{part}'
os.makedirs(ROOT, exist_ok=True)
if not os.path.exists(ROOT + '/repo'):
    subprocess.run(['cp', '-a', '/repo', ROOT + '/repo'], check=True)
subprocess.run(['git', '-C', ROOT + '/repo', 'checkout', '-q', '--', '.'], check=True)
os.makedirs(ROOT + '/verif', exist_ok=True)
shutil.rmtree(ROOT + '/verif/harness', ignore_errors=True)
shutil.copytree('/verif/harness', ROOT + '/verif/harness', ignore=shutil.ignore_patterns('target'))
for f in ('known_findings.txt',):
    shutil.copy('/verif/' + f, ROOT + '/verif/' + f)
t = open(ROOT + '/verif/harness/Cargo.toml').read().replace('opt-level = 2', 'opt-level = 1').replace('incremental = false', 'incremental = true')
open(ROOT + '/verif/harness/Cargo.toml', 'w').write(t)
env = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
           CARGO_TERM_COLOR='never', VERIF_SEED='1', RCHECK_DIR=ROOT + '/verif', PATH='/root/.cargo/bin:' + os.environ['PATH'])
SRC = ROOT + '/repo/rstar/src'
def sh(cmd, cwd, timeout, **e):
    try:
        return subprocess.run(cmd, cwd=cwd, env=dict(env, **e), shell=True, capture_output=True, text=True, timeout=timeout, start_new_session=True)
    except subprocess.TimeoutExpired:
        subprocess.run(['pkill', '-f', ROOT + '/'])
        return None
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
       (r' < ', ' > '), (r' <= ', ' >= '),
       (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r' \+= ', ' -= '), (r' -= ', ' += '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'!(?=[a-z(])', ''),
       (r'min_point', 'max_point'), (r'max_point', 'min_point'), (r'min_inline', 'max_inline'), (r'max_inline', 'min_inline'),
       (r'\.lower\b', '.upper'), (r'\.upper\b', '.lower'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b2\b', '3'),
       (r'\.iter\(\)', '.iter().skip(1)'), (r'\.iter\(\)', '.iter().take(1)'), (r'\.iter_mut\(\)', '.iter_mut().skip(1)'),
       (r'\bmin_size\b', '(min_size + 1)'), (r'\bMAX_SIZE\b', 'MIN_SIZE'), (r'\bMIN_SIZE\b', 'MAX_SIZE'),
       (r'contains_envelope', 'intersects'), (r'\bintersects\b', 'contains_envelope'), (r'max_value', 'min_value'), (r'min_value', 'max_value'),
       (r'\bl\b', 'r'), (r'\br\b', 'l'), (r'\.ceil\(\)', '.floor()'), (r'\.floor\(\)', '.ceil()'), (r'one\(\)', 'zero()'), (r'zero\(\)', 'one()'),
       (r'Some\(t\)', 'None'), (r'\?;', ';')]
def code_lines(text):
    lines = text.split('\n')
    for i, l in enumerate(lines):
        if re.match(r'\s*#\[cfg\(test\)\]', l) and i + 1 < len(lines) and 'mod' in lines[i + 1]:
            break
        s = l.strip()
        if not s or s.startswith(('//', '#', 'use ', 'pub use', 'debug_assert')):
            continue
        yield i, l
muts = []
for d, _, fs in sorted(os.walk(SRC)):
    for f in sorted(fs):
        if not f.endswith('.rs') or f == 'test_utilities.rs':
            continue
        p = os.path.join(d, f)
        text = open(p).read()
        lines = text.split('\n')
        for i, l in code_lines(text):
            body = l.split('//')[0]
            for pat, new in OPS:
                for m in re.finditer(pat, body):
                    muts.append((p, i, l, body[:m.start()] + new + body[m.end():]))
            if body.rstrip().endswith(';') and not re.match(r'\s*(let|return|type|const|pub|\}|\))', body) and body.count('(') == body.count(')') and not lines[i-1].rstrip().endswith(('(', ',', '=', '.', '|')) and not body.strip().startswith('.'):
                muts.append((p, i, l, ''))
random.Random(7).shuffle(muts)
muts = muts[part::parts]
log = open(f'{work}/{part}.log', 'a')
done = set()
if os.path.exists(f'{work}/{part}.done'):
    done = set(open(f'{work}/{part}.done').read().split('\n'))
donef = open(f'{work}/{part}.done', 'a')
IDS = {}
for b in ('tree', 'join', 'boxes', 'repr', 'wrap', 'own', 'cost', 'envs', 'pure', 'vals'):
    for m in re.finditer(r'^\s*"(C\d+)" => ', open(f'{ROOT}/verif/harness/src/bin/{b}.rs').read(), re.M):
        IDS[m.group(1)] = b
print(len(muts), 'changes', file=log, flush=True)
for n, (p, i, old, new) in enumerate(muts):
    key = f'{p[len(SRC)+1:]}:{i+1}: {old.strip()} => {new.strip()}'
    if key in done:
        continue
    text = open(p).read()
    lines = text.split('\n')
    assert lines[i] == old
    lines[i] = new
    open(p, 'w').write('\n'.join(lines))
    res = None
    try:
        r = sh('cargo test --offline -q -p rstar --all-features --lib', ROOT + '/repo', 90)
        if r is None or r.returncode != 0:
            continue
        r = sh('cargo test --offline -q -p rstar --all-features --doc', ROOT + '/repo', 120)
        if r is None or r.returncode != 0:
            continue
        res = 'SURVIVED'
        first = ['boxes', 'tree'] if p.endswith(('aabb.rs', 'point.rs', 'line.rs', 'rectangle.rs', 'object.rs')) else ['wrap', 'tree'] if '/primitives/' in p else ['tree', 'cost']
        for b in first + [b for b in ('tree', 'boxes', 'envs', 'join', 'cost', 'own', 'wrap', 'repr', 'pure', 'vals') if b not in first]:
            r = sh(f'cargo build --release --offline --quiet --bin {b}', ROOT + '/verif/harness', 900, CARGO_TARGET_DIR=ROOT + '/target')
            if r is None or r.returncode != 0:
                res = 'HARNESS-BUILD ' + b
                break
            for c in sorted(c for c in IDS if IDS[c] == b):
                r = sh(f'{ROOT}/target/release/{b} run {c} quick', ROOT + '/verif', 600, RCHECK_CASES='30000')
                if r is None or r.returncode != 0:
                    res = f'CAUGHT {c} {"timeout" if r is None else r.returncode}'
                    break
            if res != 'SURVIVED':
                break
    finally:
        open(p, 'w').write(text)
        donef.write(key + '\n'); donef.flush()
        if res:
            print(res, '|', key, file=log, flush=True)
print('END', file=log, flush=True)
