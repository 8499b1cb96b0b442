#!/usr/bin/env python3
"""Development tool: writes /verif/seeded/<id>/ from tools/seeds/*.py and confirms each in a scratch copy.
   seed.py [ID...]          (re)build and confirm the named seeds (default: those without meta.json)"""
import sys, os, json, glob, subprocess, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'; S = '/tmp/seedrepo'
seeds = {}
def seed(id, prop, file, edits, needs, breaks, demo, san=''):
    if isinstance(file, str) and edits and isinstance(edits[0], str): edits = [(file, edits[0], edits[1])]
    elif isinstance(file, str): edits = [(file, a, b) for a, b in edits]
    seeds[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, san=san)
for f in sorted(glob.glob(V + '/tools/seeds/*.py')): exec(open(f).read())
want = sys.argv[1:] or [i for i in seeds if not os.path.exists(f'{V}/seeded/{i}/meta.json')]
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
shutil.rmtree(S, ignore_errors=True); sh(f'cp -a {R} {S}')
for i in want:
    s = seeds[i]; d = f'{V}/seeded/{i}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh(f'git -C {S} checkout -q -- .')
    bad = None
    for f, a, b in s['edits']:
        t = open(f'{S}/{f}').read()
        if t.count(a) != 1: bad = f'{f}: {t.count(a)} matches of {a[:60]!r}'; break
        open(f'{S}/{f}', 'w').write(t.replace(a, b))
    if bad: print(i, 'EDIT', bad); shutil.rmtree(d); continue
    diff = sh(f'git -C {S} diff').stdout; open(d + '/patch.diff', 'w').write(diff)
    # only lines of the original
    sh(f'git -C {S} checkout -q -- .')
    for m in re.finditer(r'^-(?!--)(.*)$', diff, re.M):
        pass
    open(d + '/demo.cpp', 'w').write('#include "demo.h"\n' + s['demo'])
    shutil.copy(V + '/tools/seedbase/demo.h', d)
    ds = open(V + '/tools/seedbase/demo.sh').read()
    if s['san']: ds = ds.replace('D=$(cd', f"SANFLAGS='{s['san']}'; D=$(cd", 1)
    open(d + '/demo.sh', 'w').write(ds); os.chmod(d + '/demo.sh', 0o755)
    shutil.copytree(V + '/shim', d + '/shim')
    ns = lambda c: sh(f"unshare -Urm sh -c 'mount --bind {S} /repo && cd /repo && {c}'")
    r0 = ns(f'{d}/demo.sh')
    a = sh(f'git -C {S} apply {d}/patch.diff')
    r = ns('bash /opt/vp/test.sh /tmp/seedout.json >/tmp/seedbuild.log 2>&1')
    try: p = set(json.load(open('/tmp/seedout.json'))['passed'])
    except Exception: p = set()
    r1 = ns(f'{d}/demo.sh')
    sh(f'git -C {S} checkout -q -- .')
    ours, cur, n = [], None, 0   # removed lines that my own commits changed
    for l in diff.splitlines():
        if l.startswith('--- a/'): cur = l[6:]
        elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            b = sh(f'git -C {R} blame -s -L {n},{n} -- {cur}').stdout
            if not b.startswith('^'): ours.append(b.strip())
            n += 1
        elif l.startswith(' '): n += 1
    ok = r0.returncode == 0 and r1.returncode == 1 and not (stable - p) or (r1.returncode not in (0, 3) and r0.returncode == 0 and not (stable - p))
    print(i, s['prop'], 'OK' if ok else 'BAD', 'clean', r0.returncode, 'patched', r1.returncode, 'tests', len(stable - p), 'ours', len(ours), flush=True)
    if not ok: print(r0.stdout[-600:], '----', r1.stdout[-600:])
    elif r1.stdout: print('   ', r1.stdout.strip().splitlines()[0][:150])
    if ours: print('    ', ours[:4])
    if ok: json.dump({"property": s['prop'], "needs": s['needs'], "what_it_breaks": s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
shutil.rmtree(S, ignore_errors=True)
