#!/usr/bin/env python3
"""Development tool: small changes made to the library one by one, and which check notices them.
   mutate.py list FILE...              prints the mutants
   mutate.py run LOG WORKERS SECONDS [FILE...]   tries them in random order, appending to LOG; survivors are marked
   mutate.py one ID                    prints the diff of one mutant"""
import sys, os, re, json, random, subprocess, shutil, time, hashlib, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'
FILES = 'Composition Context Document Event Formatter Media MediaSettings Object Parser ParserLua Player PlayerAnimator PlayerImage PlayerRemote PlayerText Predicate Switch WebServices aux-ginga'.split()
def strip(t):   # comments and strings blanked, same length
    def b(m): s = m.group(0); return s[0] + re.sub(r'[^\n]', ' ', s[1:-1]) + s[-1] if s[0] in '"\'' else re.sub(r'[^\n]', ' ', s)
    t = re.sub(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|//[^\n]*|/\*.*?\*/', b, t, flags=re.S)
    # preprocessor lines that only include or test
    return re.sub(r'^[ \t]*#[ \t]*(include|if|ifdef|ifndef|else|elif|endif|undef|pragma)[^\n]*', lambda m: ' ' * len(m.group(0)), t, flags=re.M)
def functions(t):   # spans of brace blocks that start at column 0
    return [(m.start(), t.find('\n}', m.start()) + 2) for m in re.finditer(r'^\{', t, re.M)]
SKIP = re.compile(r'\s*(TRACE|WARNING|g_assert\w*|PLAYER_REMOTE|return|using|case|default|break|continue|goto|typedef|ERROR|else|G_STMT_\w+|throw)\b')
DECL = re.compile(r'\s*(?:static\s+|const\s+|unsigned\s+)*[A-Za-z_][\w:]*(?:\s*<[^;]*>)?(?:::\w+)?\s*[\s\*&]+\s*[A-Za-z_]\w*\s*(?:=|;|,|\[|$)')
def mutants(f):
    src = open(f'{R}/lib/{f}.cpp').read(); t = strip(src); out = []
    def add(a, b, new, op): out.append((f, a, b, new, op))
    for lo, hi in functions(t):
        # simple statements
        i = lo + 1; start = i; depth = 0
        while i < hi:
            c = t[i]
            if c in '([': depth += 1
            elif c in ')]': depth -= 1
            elif depth == 0 and c in '{}': start = i + 1
            elif depth == 0 and c == ';':
                s = t[start:i + 1]
                m = re.match(r'\s*(?:if|for|while)\s*\(', s)
                if m:   # control part without braces
                    d = 1; k = m.end()
                    while k < len(s) and d: d += {'(': 1, ')': -1}.get(s[k], 0); k += 1
                    start += k; s = t[start:i + 1]
                m = re.match(r'\s*(case [^:]+(?:::\w+)*|default)\s*:(?!:)', s)
                if m: start += m.end(); s = t[start:i + 1]
                if s.strip() not in ('', ';') and not SKIP.match(s) and not DECL.match(s) and not s.strip().startswith(('#', 'else')):
                    a = start + len(s) - len(s.lstrip()); add(a, i + 1, ';', 'del')
                if re.match(r'\s*(break|continue)\s*;', s): a = start + len(s) - len(s.lstrip()); add(a, i + 1, ';', 'del-' + s.strip())
                start = i + 1
            i += 1
        body = t[lo:hi]
        for m in re.finditer(r'\b(if|while)\s*\(', body):
            d = 1; k = m.end()
            while k < len(body) and d: d += {'(': 1, ')': -1}.get(body[k], 0); k += 1
            c = src[lo + m.end():lo + k - 1]
            add(lo + m.end(), lo + k - 1, f'({c}) && false', 'false')
            if m.group(1) == 'if': add(lo + m.end(), lo + k - 1, f'({c}) || true', 'true')
        for pat, new in ((r'&&', '||'), (r'\|\|', '&&'), (r'(?<![<\-=])<=(?!=)', '<'), (r'(?<![>\-=])>=(?!=)', '>'), (r'(?<=[\w\)] )<(?= [\w\(\-])', '<='), (r'(?<=[\w\)] )>(?= [\w\(\-])', '>='),
                         (r'==', '!='), (r'!=', '=='), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'(?<=[\w\)] )\+(?= [\w\(])', '-'), (r'(?<=[\w\)] )-(?= [\w\(])', '+'), (r'(?<=[\w\)] )\*(?= [\w\(])', '/'), (r'(?<=[\w\)] )/(?= [\w\(])', '*'),
                         (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '0'), (r'(?<![\w.])([2-9]|\d\d+)(?![\w.])', None), (r'push_back', 'push_front'), (r'push_front', 'push_back'), (r'\bSTOP\b', 'ABORT'), (r'\bSLEEPING\b', 'PAUSED'), (r'\bOCCURRING\b', 'PAUSED'), (r'isOccurring', 'isPaused'), (r'isSleeping', 'isPaused')):
            for m in re.finditer(pat, body):
                n = new if new is not None else str(int(m.group(0)) - 1)
                add(lo + m.start(), lo + m.end(), n, m.group(0) + '>' + n)
        for m in re.finditer(r'"[^"\n]*"', src[lo:hi]):
            if t[lo + m.start()] == '"' and len(m.group(0)) > 2 and '%' not in m.group(0): add(lo + m.start(), lo + m.end(), '"~' + m.group(0)[1:], 'str')
    # drop what is inside messages
    keep = []
    for f, a, b, n, op in out:
        ls = max(t.rfind(';', 0, a), t.rfind('{', 0, a), t.rfind('}', 0, a)) + 1
        if re.match(r'\s*(TRACE|WARNING|g_assert\w*|ERROR\w*|str \+=|g_print\w*)\b', t[ls:a + 1]): continue
        if 'toString' in src[src.rfind('\n{', 0, a) - 120:src.rfind('\n{', 0, a)]: continue
        keep.append((f, a, b, n, op))
    return src, keep
def mid(f, a, b, n): return f + '-' + hashlib.sha1(f'{a} {b} {n}'.encode()).hexdigest()[:8]
def describe(src, m):
    f, a, b, n, op = m; ln = src.count('\n', 0, a) + 1
    return f'{mid(f, a, b, n)} {f}.cpp:{ln} [{op}] ' + ' '.join(src[a:b].split())[:90] + '  ->  ' + ' '.join(n.split())[:90]
CORE = [f'h_core C{i:02d}' for i in (1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 21)]
def props(f):
    T = json.load(open(V + '/MANIFEST.json'))['checks']; allp = []
    for c in T:
        w = c['quick_cmd'].split(); allp.append((w[1], w[2]))
    allp = [f'{h} {p}' for h, p in allp if h != 'mem']
    first = {'Parser': ['C14', 'C15', 'C16', 'C13'], 'ParserLua': ['C17', 'C13'], 'WebServices': ['C24', 'C29'], 'PlayerRemote': ['C29'], 'aux-ginga': ['C22', 'C23'], 'Formatter': ['C12', 'C19', 'C18'],
             'Player': ['C18', 'C19', 'C28', 'C20'], 'PlayerAnimator': ['C20'], 'PlayerText': ['C28', 'C19'], 'PlayerImage': ['C28', 'C19'], 'Predicate': ['C07']}.get(f, ['C01', 'C04'])
    return sorted(allp, key=lambda x: (x.split()[1] not in first, x))
def main():
    if sys.argv[1] == 'list':
        for f in sys.argv[2:] or FILES:
            src, ms = mutants(f)
            for m in ms: print(describe(src, m))
        return
    if sys.argv[1] == 'one':
        f = sys.argv[2].rsplit('-', 1)[0]; src, ms = mutants(f)
        for m in ms:
            if mid(*m[:4]) == sys.argv[2]:
                a, b = '/tmp/mut-a', '/tmp/mut-b'; open(a, 'w').write(src); open(b, 'w').write(src[:m[1]] + m[3] + src[m[2]:])
                print(subprocess.run(['diff', '-u', '--label', f'a/lib/{f}.cpp', '--label', f'b/lib/{f}.cpp', '-U8', a, b], stdout=subprocess.PIPE, text=True).stdout)
        return
    log, nw, secs = sys.argv[2], int(sys.argv[3]), float(sys.argv[4]); files = sys.argv[5:] or FILES
    done = set()
    if os.path.exists(log): done = {l.split()[1] for l in open(log) if len(l.split()) > 1}
    todo = []
    for f in files:
        src, ms = mutants(f)
        todo += [(src, m) for m in ms if mid(*m[:4]) not in done]
    random.Random(int(time.time())).shuffle(todo); print(len(todo), 'mutants', flush=True)
    t0 = time.time(); lock = threading.Lock()
    harn = sorted({p.split()[0] for p in props('Media')})
    env = dict(os.environ, MALLOC_PERTURB_='170', LC_ALL='C.UTF-8', TZ='UTC', G_SLICE='always-malloc', VERIF_SEED='1', VERIF_TIER='quick', VF_WORKERS='2'); env.pop('DISPLAY', None)
    def worker(w):
        D = f'/tmp/mut{w}'; shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
        subprocess.run(f'cp -a {R} {D}/repo && mkdir {D}/v && cp -a {V}/Makefile {V}/harness {V}/shim {V}/known-findings.txt {V}/MANIFEST.json {D}/v/ && mkdir -p {D}/v/build && cp -a {V}/build/opt {D}/v/build/opt', shell=True, check=True)
        mk = f'cd {D}/v && make -s -j2 VARIANT=opt REPO={D}/repo ' + ' '.join(f'build/opt/{h}' for h in harn)
        subprocess.run(mk, shell=True, check=True)
        while time.time() - t0 < secs:
            with lock:
                if not todo: break
                src, m = todo.pop()
            f, a, b, n, op = m; p = f'{D}/repo/lib/{f}.cpp'
            subprocess.run(f'cp -p {D}/v/build/opt/lib/{f}.o {D}/orig.o', shell=True)
            open(p, 'w').write(src[:a] + n + src[b:])
            c = subprocess.run(mk, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            res = 'SURVIVED'
            if c.returncode: res = 'nocompile'
            else:
                for st in (400, 30):
                    for hp in props(f):
                        h, pr = hp.split(); e = dict(env, VF_MUT=str(1 if pr in ('C22', 'C23', 'C26', 'C27') and st == 30 else st))
                        if h == 'h_play': e['GLIBC_TUNABLES'] = 'glibc.malloc.tcache_count=0'
                        try: r = subprocess.run([f'build/opt/{h}', pr], cwd=f'{D}/v', env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=150)
                        except subprocess.TimeoutExpired: res = f'KILLED {pr} timeout'; break
                        if r.returncode: res = [l for l in r.stdout.splitlines() if l.startswith('KILLED')][:1]; res = res[0] if res else f'KILLED {pr} rc {r.returncode}'; break
                    if res != 'SURVIVED': break
            with lock: open(log, 'a').write(('%-9s ' % res.split()[0]) + describe(src, m) + '   ## ' + res + '\n')
            open(p, 'w').write(src)
            subprocess.run(f'cp {D}/orig.o {D}/v/build/opt/lib/{f}.o; sleep 0.01; touch {D}/v/build/opt/lib/{f}.o', shell=True)
        shutil.rmtree(D, ignore_errors=True)
    ts = [threading.Thread(target=worker, args=(w,)) for w in range(nw)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
