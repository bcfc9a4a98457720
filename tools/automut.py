#!/usr/bin/env python3
"""automut.py FILE PROOF [FUNCTION] [N] [SEED]: mutate a function's source (in a copy of the extraction) and list mutants the proof accepts"""
import sys, re, os, json, random, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
src = os.environ.get('SRC', '/tmp/w/src')
F, P = sys.argv[1:3]
fn = sys.argv[3] if len(sys.argv) > 3 and sys.argv[3] != '-' else P.split(':')[1].split('.')[0]
N = int(sys.argv[4]) if len(sys.argv) > 4 else 10
random.seed(int(sys.argv[5]) if len(sys.argv) > 5 else 1)
L = open(os.path.join(src, F)).read().split('\n')
a = next(i for i, l in enumerate(L) if re.match(r'%s\(' % fn, l) and not l.rstrip().endswith(';') and any(x.startswith('{') for x in L[i:i+8]))
b = next(i for i in range(a, len(L)) if L[i].startswith('}'))
s = next(i for i in range(a, b) if L[i].startswith('{'))
M = []
for i in range(s, b):
    l = L[i]
    if l.strip().startswith(('*', '/*')): continue
    for pat, rep in ((r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r'continue;', ';'), (r'break;', ';'), (r'\+\+;', '+= 2;'), (r'>=? 0', '== 0'), (r'\b1\b', '2'), (r'\b0\b', '1'),
        (r'->name', '->doc'), (r'FIELD_NULL\b', 'FIELD_UNIQUE'), (r'FTYPE_INT\b', 'FTYPE_REAL'), (r'FTYPE_PASSWORD\b', 'FTYPE_TEXT'), (r'OPTYPE_STREQ\b', 'OPTYPE_EQUAL'), (r'return 0;', 'return 1;'), (r'UP_MODIFY', 'UP_DELETE'),
        (r'pos\+\+', 'pos'), (r'idx\+\+', 'idx'), (r'%zu', '1'), (r'%s', 'x%s'), (r'\breturn 0;', ';'), (r'->source', '->target'), (r'\bNULL\b', '(void *)1'), (r'(case FTYPE_\w+:)', ';')):
        for m in re.finditer(pat, l):
            M.append((i, l[:m.start()] + rep + l[m.end():]))
    for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', l):
        t = m.group(1)
        w = [x for x in re.finditer(r'[\w*&]{2,}|[=;(){}]', t) if not (x.start() and t[x.start()-1] in '\\%')]
        if w:
            x = random.choice(w)
            M.append((i, l[:m.start(1)] + t[:x.start()] + t[x.end():] + l[m.end(1):]))
    if re.match(r'\s+[\w>.-]+\(.*\);$', l): M.append((i, re.sub(r'\S.*', ';', l, 1)))
random.shuffle(M)
def go(m):
    i, new = m
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp/w')
    try:
        for x in os.listdir(src): 
            if os.path.isfile(os.path.join(src, x)): shutil.copy(os.path.join(src, x), d)
        LL = list(L); LL[i] = new
        open(os.path.join(d, F), 'w').write('\n'.join(LL))
        pr = os.path.join(d, 'pr.json')
        subprocess.run(['python3-vt', '/verif/specs/worker.py', d, P, pr, '120'], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=200)
        r = json.load(open(pr))
        return m, r['status'], r['why'], [o['name'] for o in r['obl'] if not o['ok']][:1]
    except Exception as e: return m, 'crash', str(e)[:100], []
    finally: shutil.rmtree(d, ignore_errors=True)
T = {}
with ThreadPoolExecutor(int(os.environ.get('J', '8'))) as ex:
    for (i, new), st, why, o in ex.map(go, M[:N]):
        T[st] = T.get(st, 0) + 1
        if st != 'failed' or os.environ.get('V'): print('  %-9s %d: %s => %s   %s %s' % (st, i + 1, L[i].strip(), new.strip(), (why or '')[:160], o))
print(P, 'of', len(M), T)
