"""Runs the TypeScript of ort-nodejs on stand-ins of its three libraries."""
import base64, json, os, shutil, struct, subprocess, glob, random
from expect import *
from e2e import norm, s64
HERE = os.path.dirname(os.path.abspath(__file__))
def esbuild():
    for p in ('/opt/veriftools/node/node_modules/@esbuild/linux-x64/bin/esbuild', shutil.which('esbuild') or ''):
        if p and os.path.exists(p): return p
    return None

def setup(dir):
    src = os.path.join(HERE, 'stubs', 'node')
    for n in ('bcrypt', 'better-sqlite3', 'validator'):
        d = os.path.join(dir, 'node_modules', n); os.makedirs(d, exist_ok=True)
        shutil.copy(os.path.join(src, n + '.mjs'), os.path.join(d, 'index.mjs'))
        with open(os.path.join(d, 'package.json'), 'w') as f: f.write('{"name":"%s","main":"index.mjs","type":"module","exports":"./index.mjs"}' % n)
    shutil.copy(os.path.join(src, 'driver.mjs'), os.path.join(dir, 'driver.mjs'))

def arg(f, v):
    if v is None: return None
    if f.type in ('int', 'date', 'epoch', 'bit', 'bits'): return ['i', str(v)]
    if f.type == 'real': return ['r', v]
    if f.type == 'enum': return ['s', str(v)]
    if f.type == 'blob': return ['b', bytes(v).hex()]
    return ['s', v]

def val(f, e):
    """canonical value of an encoded result"""
    if e is None: return None
    k, v = e
    if f.type == 'real': return 'r:%r' % float(v)
    if k == 'i': return 'i:%d' % int(v)
    if k == 'r': return 'r:%r' % float(v)
    if k == 'b': return 'b:' + v
    if f.type == 'enum' and k == 's': return 'i:%d' % int(v)
    if k == 's': return 's:' + v
    return repr(e)

def raw(by, st, e):
    """object in the shape of Plan.build"""
    if e is None: return None
    if e[0] != 'o': return repr(e)
    o = {}; d = dict(e[1])
    for f in st.fields:
        if f.name not in d: o[f.name] = 'absent'; continue
        x = d.pop(f.name)
        o[f.name] = raw(by, by[f.tgt], x) if f.type == 'struct' else val(f, x)
    for k in d:
        if d[k] != ['u']: o[k] = 'extra'
    return o

def exp(by, st, e):
    if e is None: return None
    if e[0] != 'o': return repr(e)
    o = {}; d = dict(e[1])
    for f in st.fields:
        if f.name not in d: continue
        x = d.pop(f.name)
        if f.type == 'struct': o[f.name] = exp(by, by[f.tgt], x)
        elif x is None: o[f.name] = None
        elif f.type == 'blob': 
            try: o[f.name] = 'b:' + base64.b64decode(x[1]).hex()
            except Exception: o[f.name] = repr(x)
        elif f.type == 'real': o[f.name] = 'r:%r' % float(x[1])
        elif f.type in ('text', 'email', 'password'): o[f.name] = 's:' + x[1]
        else: o[f.name] = 'i:%d' % int(x[1])
    for k in d: o[k] = 'extra'
    return o

def build(dir, name, ts):
    p = os.path.join(dir, name + '.ts')
    with open(p, 'wb') as f: f.write(ts)
    r = subprocess.run([esbuild(), p, '--outfile=' + os.path.join(dir, name + '.mjs'), '--log-level=error'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return None if r.returncode == 0 else r.stdout.decode('utf-8', 'replace')[-600:]

def run(dir, name, plan, timeout=60):
    p = os.path.join(dir, name + '.json')
    with open(p, 'w') as f: json.dump(plan, f)
    try: r = subprocess.run(['node', '--no-warnings', os.path.join(dir, 'driver.mjs'), os.path.join(dir, name + '.mjs'), p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired: return None, 'timeout'
    if r.returncode: return None, r.stderr.decode('utf-8', 'replace')[-800:]
    return [json.loads(l) for l in r.stdout.decode('utf-8').splitlines()], None
