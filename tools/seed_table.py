#!/usr/bin/env python3
"""seed_table.py: runs each planted bug's own check on a scratch copy of /repo with the bug applied and
prints the table of DESIGN.md section 9."""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(HERE, 'seeded')
def one(k, ids):
    out = []
    v, r = f'/tmp/st/{k}/verif', f'/tmp/st/{k}/repo'
    shutil.rmtree(f'/tmp/st/{k}', ignore_errors=True); os.makedirs(f'/tmp/st/{k}')
    subprocess.run(['cp', '-a', HERE, v]); subprocess.run(['cp', '-a', '/repo', r])
    for i in ids:
        m = json.load(open(f'{S}/{i}/meta.json'))
        subprocess.run(['git', '-C', r, 'checkout', '-q', '--', '.'])
        subprocess.run(['git', '-C', r, 'apply', f'{S}/{i}/patch.diff'], check=True)
        p = subprocess.run(['python3', 'bin/check.py', m['property']], cwd=v, env={**os.environ, 'PARSEGEN_REPO': r, 'VERIF_SEED': '1'}, capture_output=True, text=True)
        w = 'missed'
        if p.returncode == 1:
            w = 'proof' if 'no-failing-input-found' in p.stdout else 'input'
            ob = sorted(set(re.findall(r'UNPROVED[^\n]*?([a-z_0-9]+::[A-Za-z_0-9:]+)', p.stdout)))
            if w == 'input' and ob: w = 'input and proof'
        out.append((i, m['property'], m['needs'], w))
        print(i, w, file=sys.stderr, flush=True)
    shutil.rmtree(f'/tmp/st/{k}', ignore_errors=True)
    return out
ids = sys.argv[1:] or sorted(os.listdir(S))
N = 3
with ThreadPoolExecutor(N) as ex:
    rows = sorted(sum(ex.map(lambda k: one(k, ids[k::N]), range(N)), []))
print('| planted bug | property | needs | caught by |\n|---|---|---|---|')
for r in rows: print('| ' + ' | '.join(r) + ' |')
