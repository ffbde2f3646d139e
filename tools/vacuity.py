#!/usr/bin/env python3
"""Vacuity check (development tool, not a registered check): plants `assert(false)` at points of the woven
functions, one point per function and run, and lists the points at which the verifier accepts it, i.e. at
which the assumptions made so far (preconditions, invariants, callee contracts) contradict each other.
usage: vacuity.py WOVEN.rs module.."""
import re, subprocess, sys, os, tempfile
src, mods = sys.argv[1], sys.argv[2:]
L = open(src).read().splitlines()
mod, fns, cur = None, [], None
for i, l in enumerate(L):
    m = re.match(r'pub mod (\w+)\s*\{', l)
    if m:
        mod = m.group(1)
    if mod not in mods:
        continue
    m = re.match(r'\s*(?:pub(?:\(crate\))? )?(?:broadcast )?(proof )?(?:exec )?fn\s+(\w+)', l)
    if m and 'external_body' not in L[i - 1]:
        cur = dict(name='%s::%s@%d' % (mod, m.group(2), i + 1), proof=bool(m.group(1)), start=i, pts=[])
        fns.append(cur)
    if cur is None:
        continue
    if re.match(r'\s*(pub )?(open |closed |uninterp )+spec fn', l) or re.match(r'\s*#\[verifier::external_body', l):
        cur = None
        continue
    if not cur['pts'] and i >= cur['start'] and l.strip() == '{':
        cur['pts'].append(i + 1)
    elif cur['pts'] and not cur['proof'] and re.match(r'\s*proof \{', l):
        cur['pts'].append(i)
        cur['pts'].append(-(i + 1))
    elif cur['pts'] and cur['proof'] and l == '}':
        j = i
        sig = ' '.join(L[cur['start']:cur['pts'][0]])
        if '->' not in sig.split('requires')[0].split('ensures')[0] and L[j - 1].rstrip().endswith(('}', ';')):
            cur['pts'].append(j)
        cur = None
fns = [f for f in fns if f['pts']]
n = max(len(f['pts']) for f in fns)
print('%d functions, up to %d points' % (len(fns), n), flush=True)
bad = 0
for k in range(n):
    ins = {}
    for f in fns:
        if k < len(f['pts']):
            p = f['pts'][k]
            ins[abs(p)] = (f, 'assert(false);' if f['proof'] or p < 0 else 'proof { assert(false); }')
    out, where = [], {}
    for i, l in enumerate(L):
        if i in ins:
            out.append(ins[i][1])
            where[len(out)] = ins[i][0]
        out.append(l)
    fd, path = tempfile.mkstemp(suffix='.rs')
    os.write(fd, '\n'.join(out).encode())
    os.close(fd)
    a = ['verus', path, '--triggers-mode', 'silent', '--multiple-errors', '6', '--num-threads', '8']
    for m in mods:
        a += ['--verify-module', m]
    p = subprocess.run(a, capture_output=True, text=True, cwd='/tmp')
    os.remove(path)
    t = p.stdout + p.stderr
    if 'verification results' not in t:
        print('run', k, 'no result:', t[:600])
        continue
    hit = {int(x) for x in re.findall(r'--> \S+?:(\d+)', t)}
    for ln, f in sorted(where.items()):
        if ln not in hit:
            bad += 1
            print('ACCEPTED', f['name'], 'point', k, 'woven line', abs(f['pts'][k]) + 1, flush=True)
print('accepted points:', bad)
