#!/usr/bin/env python3
"""Mutation sampling: small random changes to the code under test, in scratch copies of /repo and of the harness workspace;
those no check notices and no stable test kills are printed. mutate.py te|ql N SEED [file-substring]"""
import json, os, random, re, subprocess, sys, shutil
side, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
only = sys.argv[4] if len(sys.argv) > 4 else ''
W = f'/tmp/mut-{side}'; R = W + '/repo'
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
crate = 'trading-engine' if side == 'te' else 'quantlib'
H = side + '-harness'
def sh(c, t=1500, **k):
    try: return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, executable='/bin/bash', **k)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 124, '', '')
os.makedirs(W, exist_ok=True)
sh(f'mkdir -p {R} {W}/sim; rsync -a --delete --exclude target /repo/ {R}/; rsync -a --delete --exclude target {V}/sim/ {W}/sim/; cp {V}/known-findings.jsonl {W}/; cp {V}/env.sh {W}/env.sh')
sh(f'cd {R} && git checkout -q -- .')
sh(f"grep -rl '/repo' {W}/sim --include=*.toml --include=*.rs --include=*.sh --exclude-dir=target | xargs sed -i 's#/repo/#{R}/#g'; sed -i 's#cd /repo#cd {R}#' {W}/env.sh")
MAP = [  # file pattern -> properties
 ('spinqueue', 'S01 X01'), ('utils/counter', 'S02'), ('types/id/', 'S03'), ('lazy_string', 'S04'), ('logger', 'L01 L02 L03 L04'),
 ('utils/timer', 'T01 F03 L04'), ('types/timestamp', 'T01 T02 F03 X02'), ('feature/weight', 'T02'), ('feature/tick', 'T02 F04 B01'), ('feature/', 'T02 F04'), ('udp_client', 'N01'),
 ('orderbook/', 'B01 B02 B03 F04 X02'), ('data/order', 'B01 B02 B03'), ('data/krx', 'F01 F02 F03 F04 X01 X02'), ('numeric_converter', 'F01 F02 F03 F04 X02'), ('data/', 'F01 F02 F04 B01 X02'), ('types/', 'F02 S03 X02 B03'),
 ('engine_generator', 'Q01 Q02'), ('evaluation_date', 'Q04 Q03'), ('market_price', 'Q04 Q03'), ('discrete_ratio', 'Q04 Q05 Q03 Q06'), ('zero_curve', 'Q05 Q03 Q06'), ('volatil', 'Q05 Q03'),
 ('quantlib/', 'Q06 Q03 Q02 Q01 Q07')]
SKIP = ['mock', 'krx_yield', 'ktbf', 'bond_futures', 'collective', 'number_format', 'conductor', 'memory_investigation', 'lib.rs', 'mod.rs.x', 'holiday', 'cholesc', 'stubs', 'unroll_macro', 'save', 'time/calendars', 'jsonserialize', 'number', 'distribute_value', 'bilinear']
def files():
    out = []
    for d, _, fs in os.walk(f'{R}/{crate}/src'):
        for f in fs:
            p = os.path.join(d, f)
            rel = p[len(R) + 1:]
            if f.endswith('.rs') and not any(s in rel for s in SKIP) and only in rel and any(k in rel for k, _ in MAP): out.append(rel)
    return sorted(out)
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '),
 (r' \+= ', ' -= '), (r' -= ', ' += '), (r' \*= ', ' /= '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b1\b', '2'), (r'\b0\b', '1'), (r'\b0\.0\b', '1.0'), (r'\b1\.0\b', '2.0'), (r'\.min\(', '.max('), (r'\.max\(', '.min('),
 (r'Release', 'Relaxed'), (r'Acquire', 'Relaxed'), (r'AcqRel', 'Relaxed'), (r'\bcontinue;', 'break;'), (r'\bbreak;', '{}'), (r'!(?=[a-z])', ''), (r'\bif (?!let)([^{]+) \{', r'if !(\1) {'), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'),
 (r'\.rev\(\)', ''), (r'\?;$', '.ok();'), (r'\b(\d\d+)\b', lambda m: str(int(m.group(1)) + 1)), (r'^\s*(?!let|return|use|pub|mod|type|const|static|\})[\w\.\*\(\)&:<>]+.*;$', '')]
def sites(rel):
    L = open(f'{R}/{rel}').read().split('\n'); out = []
    depth_test = False
    for i, l in enumerate(L):
        if '#[cfg(test)]' in l: break
        s = l.strip()
        if not s or s.startswith('//') or s.startswith('#') or s.startswith('use ') or 'println!' in s or 'assert' in s or s.startswith('"') or 'anyhow!' in s or 'line!()' in s or 'info!' in s or 'debug!' in s: continue
        code = l.split('//')[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                if code[:m.start()].count('"') % 2: continue
                new = code[:m.start()] + (re.sub(a, b, code[m.start():m.end()]) if a.startswith(r'\bif') else (b(m) if callable(b) else b)) + code[m.end():]
                if new != code: out.append((rel, i, l, new))
    return out
rng = random.Random(seed)
F = files()
S = [s for f in F for s in sites(f)]
# every file gets a fair share
byf = {}
for s in S: byf.setdefault(s[0], []).append(s)
picks = []
keys = [f for f in byf]
wt = [min(len(byf[f]), 60) for f in keys]
while len(picks) < n and any(byf.values()):
    f = rng.choices(keys, wt)[0]
    if byf[f]: picks.append(byf[f].pop(rng.randrange(len(byf[f]))))
print(f'{len(F)} files, {len(S)} sites, {len(picks)} picked', flush=True)
RUNS = {'te': 6000, 'ql': 4000}[side]
stat = {}
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
r = sh(f'cd {W}; . ./env.sh; build {H}')
if r.returncode: print('base build', r.stdout); sys.exit(1)
out = open(f'{W}/survivors.txt', 'a')
for k, (rel, i, old, new) in enumerate(picks):
    p = f'{R}/{rel}'; src = open(p).read(); L = src.split('\n'); L[i] = new
    open(p, 'w').write('\n'.join(L))
    res = None
    b = sh(f'cd {W}; . ./env.sh; build {H}')
    if b.returncode: res = 'nocompile'
    else:
        props = next(v for m, v in MAP if m in rel).split()
        for q in props:
            c = sh(f'cd {W}/sim; ulimit -v 60000000; nice -n 10 timeout 300 ./target/debug/{H} check {q} --runs {RUNS} --seed {seed} --tier quick --evidence {W}/ev.json --replays {W}/rp --known {W}/known-findings.jsonl')
            if c.returncode == 1: res = 'caught ' + q; break
            if c.returncode not in (0, 1): res = f'odd {q} {c.returncode}'; break
        if res is None:
            sh('sed "s#/repo#%s#g; s#/opt/vp/work#/tmp/mutwork-%s#; s#^. /opt/vp/env.sh#. /opt/vp/env.sh; cd %s#" /opt/vp/test.sh > %s/test.sh; rm -f %s/t.json; bash %s/test.sh %s/t.json' % (R, side, R, W, W, W, W))
            try: got = set(json.load(open(f'{W}/t.json'))['passed'])
            except Exception: got = set()
            res = 'SURVIVED' if BASE <= got else 'tests'
    stat[res.split()[0]] = stat.get(res.split()[0], 0) + 1
    line = f'[{k}] {res:10} {rel}:{i+1}  {old.strip()}  =>  {new.strip()}'
    print(line, flush=True)
    if res.split()[0] in ('SURVIVED', 'odd'): out.write(line + '\n'); out.flush()
    open(p, 'w').write(src)
print(stat)
