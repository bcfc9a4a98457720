"""Oracles over item numbers, structure order, strings, comments, rules, and
the tools' handling of bad input and failing output."""
import copy, json, os, re, random, shutil, subprocess, threading
from o_text import *
import noderun, crun, tools as tools_
SRC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'conc', 'stubs', 'c')

def sub(cmd, **k):
    k.setdefault('timeout', 60)
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **k)
    except subprocess.TimeoutExpired: return -1, b'', b'timeout'
    return r.returncode, r.stdout, r.stderr

def clean(d, name):
    for f in os.listdir(d):
        if f == name or f.startswith(name + '.') or f.startswith(name + '-'): os.unlink(os.path.join(d, f))

# ------------------------------------------------------------------- P15
def items_config(i):
    """enumerations and bit fields with all kinds of numbers"""
    r = random.Random(i); g = Gen(i)
    c = M(roles=[], enums=[], bits=[], structs=[], hasroles=False)
    big = 2**63 - 1
    for _ in range(r.randint(1, 3)):
        e = M(name=g.name(), doc=g.doc(), items=[], isnull={}); used = set(); vals = set()
        auto = r.choice((0, .3, .6, 1))
        lo, hi = r.choice(((-3, 3), (-9, -1), (0, 9), (-2**31 - 2, 2**31 + 2), (-big, big - 40), (0, 1)))
        for _ in range(r.randint(1, 6)):
            v = None
            if r.random() >= auto:
                for _ in range(20):
                    v = r.choice((r.randint(lo, hi), lo, hi))
                    if v not in vals: break
                    v = None
                if v is not None: vals.add(v)
            e['items'].append(M(name=g.name(used), value=v, given=v, doc=None, labels={}))
        mx = max([x.value for x in e['items'] if x.value is not None] + [-1])
        nx = max(mx + 1, 0)
        for x in e['items']:
            if x.value is None: x.value = nx; nx += 1
        c.enums.append(e)
    for _ in range(r.randint(0, 2)):
        b = M(name=g.name(), doc=g.doc(), items=[], isnull={}, isunset={}); used = set()
        for ix in r.sample(range(64), r.randint(1, 5)) if r.random() < .5 else r.sample([0, 1, 30, 31, 32, 33, 62, 63], r.randint(1, 5)):
            b['items'].append(M(name=g.name(used), value=ix, doc=None, labels={}))
        c.bits.append(b)
    st = M(name=g.name(), doc=None, fields=[M(name='id', type='int', rowid=True, limits=[])], ins=False, updates=[], deletes=[], searches=[], uniques=[], roleops=[], fn=set())
    for k, x in enumerate(c.enums): st.fields.append(M(name='e%d' % k, type='enum', of=x.name, limits=[]))
    for k, x in enumerate(c.bits): st.fields.append(M(name='b%d' % k, type='bits', of=x.name, limits=[]))
    c.structs.append(st)
    return c

def bad_items(i):
    """a configuration whose items clash, or None"""
    r = random.Random(i); c = items_config(i); k = r.randrange(6); why = None
    if k < 3 or not c.bits:
        e = r.choice(c.enums); its = e['items']
        exp = [x for x in its if x.given is not None]
        if k == 0 and exp and len(its) > 1:
            x = r.choice(exp); y = r.choice([z for z in its if z is not x]); y.given = x.given; why = 'two items numbered %d' % x.given
        elif k == 1 and len(its) > 1:
            a, b = r.sample(its, 2); b.name = a.name.upper() if r.random() < .5 else a.name; why = 'two items named %s' % a.name
        elif k == 2:
            x = r.choice(its); x.given = r.choice((2**63, -2**63, 2**64, 10**30)); why = 'number %d' % x.given
    else:
        e = r.choice(c.bits); its = e['items']
        if k == 3 and len(its) > 1: a, b = r.sample(its, 2); b.value = a.value; why = 'two items of bit %d' % a.value
        elif k == 4: x = r.choice(its); x.value = r.choice((64, -1, 65, 2**31, 2**32, 2**32 + 1, -2**31)); why = 'bit %d' % x.value
        elif k == 5 and len(its) > 1: a, b = r.sample(its, 2); b.name = a.name; why = 'two items named %s' % a.name
    return (c, why) if why else None

def rejected(ctx, src, why, tool='ort'):
    """the configuration must be refused, with a positioned message"""
    r = ctx.t.run(tool, stdin=src); fs = {'config.ort': src, 'stderr': r.etext}
    if r.crashed: return ctx.problem('%s crashes (%d): %s' % (tool, r.rc, why), fs)
    if r.rc == 0: return ctx.problem('%s accepts %s' % (tool, why), fs, '%s config.ort' % tool)
    ms = re.findall(r'^(?:<stdin>|[^:\n]*):(\d+):(\d+): error: (.*)$', r.etext, re.M)
    if not ms: return ctx.problem('%s refuses %s without an error naming its position: %r' % (tool, why, r.etext[-200:]), fs, '%s config.ort' % tool)
    n = src.count('\n') + 1
    for l, col, m in ms:
        if not (1 <= int(l) <= n + 1): return ctx.problem('%s reports line %s of %d' % (tool, l, n), fs)
    return ms

def p15(ctx):
    d = os.path.join(ctx.scratch.dir, 'p15'); os.makedirs(d, exist_ok=True)
    js = noderun.esbuild() and shutil.which('node')
    if not js: ctx.notes.append('node or esbuild missing: JavaScript not run')
    def one(i):
        b = bad_items(i)
        if b: rejected(ctx, to_ort(b[0]), b[1]); ctx.case(to_ort(b[0]))
        c = items_config(i); src = to_ort(c)
        fs = {'config.ort': src}
        want = {}
        for e in c.enums:
            for x in e['items']: want[e.name + '.' + x.name] = x.value
        wb = {}
        for e in c.bits:
            for x in e['items']: wb[e.name + '.' + x.name] = x.value
        ctx.case(src, src)
        def bad(tool, got, w, out, k='numbers'):
            if got == w: return False
            df = ['%s is %s, not %s' % (x, got.get(x, 'missing'), w.get(x, 'there')) for x in sorted(set(got) | set(w)) if got.get(x) != w.get(x)]
            ctx.problem('%s: %s' % (tool, '; '.join(df[:4])), dict(fs, output=out), '%s config.ort' % tool); return True
        # JSON and the canonical form
        r = run(ctx, 'ort', src)
        if r is None: return
        for what, inp in (('ort-json', src), ('ort | ort-json', r.text)):
            x = run(ctx, 'ort-json', inp)
            if x is None: return
            j = readjson(ctx, 'ort-json output', x.text, src)
            if j is None: return
            j = j['config']; got = {}
            for n, e in j['eq'].items():
                for m, y in e['eq'].items(): got[n + '.' + m] = y['value']
            w = dict((e.name + '.' + y.name, None if y.given is None else str(y.value)) for e in c.enums for y in e['items'])
            if bad(what, got, w, x.text): return
            got = {}
            for n, e in j['bq'].items():
                for m, y in e['bq'].items(): got[n + '.' + m] = (y['value'], y['mask'])
            if bad(what, got, dict((k, (str(v), str(2**v))) for k, v in wb.items()), x.text): return
        # the canonical form notes the numbers given automatically
        # C
        if shutil.which('gcc'):
            h = run(ctx, 'ort-c-header', src)
            if h is None: return
            n = 'c%d' % i
            with open(os.path.join(d, n + '.h'), 'wb') as f: f.write(h.out)
            with open(os.path.join(d, n + '-m.c'), 'w') as f:
                f.write('#include <sys/queue.h>\n#include <stdint.h>\n#include <stdio.h>\n#include <time.h>\n#include <stdlib.h>\n#include "%s.h"\nint main(void) {\n' % n)
                for e in c.enums:
                    for x in e['items']: f.write('{ enum %s v = %s_%s; printf("%s.%s %%lld\\n", (long long)v); }\n' % (e.name, e.name.upper(), x.name, e.name, x.name))
                for e in c.bits:
                    for x in e['items']: f.write('printf("b %s.%s %%lld %%llu\\n", (long long)BITI_%s_%s, (unsigned long long)BITF_%s_%s);\n' % ((e.name, x.name) + (e.name.upper(), x.name) * 2))
                    f.write('printf("max %s %%lld\\n", (long long)BITI_%s__MAX);\n' % (e.name, e.name.upper()))
                f.write('}\n')
            rc, o, er = sub(['gcc', '-w', '-std=gnu11', '-I' + SRC, '-I' + d, os.path.join(d, n + '-m.c'), '-o', os.path.join(d, n + '-x')])
            e = rc and er.decode('utf-8', 'replace')[:800]
            got = {}; gb = {}
            if e: clean(d, n); ctx.problem('C: the header does not compile or lacks constants: ' + e, dict(fs, header=h.text), 'ort-c-header config.ort'); return
            rc, out, _ = sub([os.path.join(d, n + '-x')])
            clean(d, n)
            mx = {}
            for l in out.decode().splitlines():
                l = l.split()
                if l[0] == 'b': gb[l[1]] = (int(l[2]), int(l[3]))
                elif l[0] == 'max': mx[l[1]] = int(l[2])
                else: got[l[0]] = int(l[1])
            if bad('ort-c-header', got, want, h.text): return
            if bad('ort-c-header', gb, dict((k, (v, 2**v)) for k, v in wb.items()), h.text): return
            if bad('ort-c-header', mx, dict((e.name, max(x.value for x in e['items']) + 1) for e in c.bits), h.text): return
        # Rust
        r = run(ctx, 'ort-rust', src)
        if r is None: return
        got = {}
        tx = re.sub(r'//[^\n]*|/\*.*?\*/', '', r.text, flags=re.S)
        for kind in (c.enums, c.bits):
            for e in kind:
                m = re.search(r'\benum\s+%s\s*\{([^}]*)\}' % e.name.capitalize(), tx)
                for x in e['items']:
                    y = re.search(r'\b%s\s*=\s*(-?\d+)' % x.name.capitalize(), m.group(1)) if m else None
                    got[e.name + '.' + x.name] = int(y.group(1)) if y else None
        if bad('ort-rust', got, dict(want, **wb), r.text): return
        # TypeScript
        if js:
            for tool, ns in (('ort-nodejs', 'ortns'), ('ort-javascript', 'ort')):
                r = run(ctx, tool, src, *(['-S', ctx.repo] if ns == 'ort' else []))
                if r is None: return
                n = ns + str(i)
                # data only: bit fields' masks are strings or Long
                tail = '\n;console.log(JSON.stringify([%s].map(o => { const r: any = {}; for (const k of Object.getOwnPropertyNames(o)) { const v = o[k]; if (typeof v === "string" || typeof v === "number") r[k] = String(v); else if (v !== null && typeof v === "object" && "low" in v) r[k] = (BigInt.asUintN(32, BigInt(v.high)) * 4294967296n + BigInt.asUintN(32, BigInt(v.low))).toString(); } return r; })));\n' % ', '.join('(<any>%s.%s)' % (ns, e.name) for e in c.enums + c.bits)
                t = re.sub(r'(?m)^import .*$', '', r.text)
                cut = t.find('namespace ortstmt')
                if ns == 'ortns' and cut > 0: t = t[:t.rfind('/**', 0, cut) if '/**' in t[:cut] and t[t.rfind('/**', 0, cut):cut].count('*/') == 1 and t[t.rfind('/**', 0, cut):cut].strip().endswith('*/') else cut]
                e = noderun.build(d, n, (t + tail).encode('utf-8', 'surrogateescape'))
                if e: clean(d, n); ctx.problem('%s: the TypeScript does not parse: %s' % (tool, e), dict(fs, output=r.text), '%s config.ort' % tool); return
                rc, out, err = sub(['node', '--no-warnings', os.path.join(d, n + '.mjs')])
                clean(d, n)
                if rc: ctx.problem('%s: the module fails: %s' % (tool, err.decode()[-400:]), dict(fs, output=r.text), '%s config.ort' % tool); return
                vals = json.loads(out)
                got = {}; gb = {}
                for e, v in zip(c.enums, vals):
                    for x in e['items']: got[e.name + '.' + x.name] = int(v[x.name]) if v.get(x.name) is not None else None
                if bad(tool, got, want, r.text): return
                for e, v in zip(c.bits, vals[len(c.enums):]):
                    for x in e['items']: gb[e.name + '.' + x.name] = tuple(int(v[y + x.name]) if v.get(y + x.name) is not None else None for y in ('BITI_', 'BITF_'))
                if bad(tool, gb, dict((k, (v, 2**v)) for k, v in wb.items()), r.text): return
    ctx.each(800, one, 45)

# ------------------------------------------------------------------- P13
def graph_config(i):
    """structures embedding each other in an arbitrary acyclic graph,
    declared in any order; returns (text, names in declaration order, edges)"""
    r = random.Random(i)
    n = r.randint(1, 9); names = []; g = Gen(i)
    for _ in range(n): names.append(g.name())
    topo = names[:]; r.shuffle(topo)
    edges = []; dens = r.choice((.15, .3, .5, .9))
    for x in range(n):
        for y in range(x):
            if r.random() < dens:
                for _ in range(r.choice((1, 1, 1, 2))): edges.append([topo[x], topo[y], r.random() < .3])
    return r, names, edges

def graph_text(r, names, edges, fks=()):
    body = dict((n, ['field id int rowid;']) for n in names)
    for k, (a, b, nl) in enumerate(edges):
        l = ['field k%d:%s.id%s;' % (k, b, ' int null' if nl else ''), 'field o%d struct k%d;' % (k, k)]
        if r.random() < .3: l.reverse()
        body[a] += l
    for k, (a, b) in enumerate(fks): body[a].append('field f%d:%s.id;' % (k, b))
    for n in names:
        if r.random() < .3: r.shuffle(body[n])
    return ''.join('struct %s {\n%s};\n' % (n, ''.join('\t%s\n' % l for l in body[n])) for n in names)

def p13(ctx):
    d = os.path.join(ctx.scratch.dir, 'p13'); os.makedirs(d, exist_ok=True)
    gcc = shutil.which('gcc')
    def one(i):
        r, names, edges = graph_config(i)
        # references alone may form any loop
        fks = [(r.choice(names), r.choice(names)) for _ in range(r.randint(0, 2))]
        emb = {}
        for a, b, _ in edges: emb.setdefault(a, set()).add(b)
        def reach(a, seen):
            for b in emb.get(a, ()):
                if b not in seen: seen.add(b); reach(b, seen)
            return seen
        if r.random() < .35:
            # close a loop of embedded structures
            if r.random() < .3 or not edges: a = b = r.choice(names)
            else:
                a = r.choice([x for x in names if emb.get(x)]); b = r.choice(sorted(reach(a, set())))
            e2 = edges + [[b, a, r.random() < .5]]; r.shuffle(e2)
            src = graph_text(r, names, e2, fks); ctx.case(src, src)
            for tool in ('ort', 'ort-c-header'):
                if not rejected(ctx, src, 'structures which contain themselves (%s through %s)' % (a, b), tool): return
        src = graph_text(r, names, edges, fks); ctx.case(src, src)
        fs = {'config.ort': src}
        x = run(ctx, 'ort-json', src)
        if x is None: return
        j = readjson(ctx, 'ort-json output', x.text, src)
        if j is None: return
        order = list(j['config']['sq'])
        if sorted(order) != sorted(names): return ctx.problem('structures are %s, not %s' % (order, names), dict(fs, output=x.text), 'ort-json config.ort')
        for a in names:
            for b in reach(a, set()):
                if order.index(b) > order.index(a): return ctx.problem('%s contains %s, but comes before it' % (a, b), dict(fs, output=x.text), 'ort-json config.ort')
        h = run(ctx, 'ort-c-header', src)
        if h is None or not gcc: return
        with open(os.path.join(d, 'g%d.h' % i), 'wb') as f: f.write(h.out)
        with open(os.path.join(d, 'g%d.c' % i), 'w') as f:
            f.write('#include <sys/queue.h>\n#include <stdint.h>\n#include <time.h>\n#include <stdlib.h>\n#include "g%d.h"\nstruct all {%s};\n' % (i, ''.join(' struct %s m_%s;' % (n, n) for n in names)))
        rc, o, e = sub(['gcc', '-w', '-std=gnu11', '-fsyntax-only', '-I' + SRC, os.path.join(d, 'g%d.c' % i)])
        clean(d, 'g%d' % i)
        if rc: return ctx.problem('the generated header does not compile: ' + e.decode('utf-8', 'replace')[:600], dict(fs, header=h.text), 'ort-c-header config.ort')
    ctx.each(4000, one, 40)

# ------------------------------------------------------------------- P09
SOUP = ["'", "''", '\\"', '\\', '\\\\', '\\n', '\\u0041', '\\x41', '\n', '\t', '--', ';', '/*', '*/', '//', '${1}', '`', '%s', '%', '?', '<', '>', '&', '&amp;', '&lt;', '</source>', '<b>', ']]>', '<!--', '{', '}', ',', '#', 'é', '\u2028', '\U0001f600', 'a', 'b', 'Z9', ' ', ' ', '0', 'x y', ');', "',", '\x01', '\x7f', '|', '$', '@', '!', '^', '~', '=', 'NULL', ':', '.']
def soup(r, xml=False, empty=True):
    """a raw string of ort(5) (quotes are escaped)"""
    t = ''.join(r.choice(SOUP) for _ in range(r.choice((0, 1, 1, 2, 3, 5, 9)) if empty else r.choice((1, 1, 2, 3, 5, 9))))
    if xml: t = t.replace('\x01', '')
    if t.endswith('\\'): t += r.choice("x 'z")
    return t or ('' if empty else 'q')

def strings_config(i):
    r = random.Random(i); g = Gen(i)
    c = M(roles=[], enums=[], bits=[], structs=[], hasroles=False)
    def labs(full):
        d = {}
        for l, p in (('', .8), ('en', .4), ('fr', .4)):
            if full and l == '' or r.random() < p: d[l] = soup(r, True, False)
            if l in d and not d[l].strip(): d[l] = "w'"
        return d
    full = i % 2 == 0
    for _ in range(r.randint(1, 2)):
        e = M(name=g.name(), doc=None, items=[], isnull=labs(full)); used = set()
        for k in range(r.randint(1, 4)): e['items'].append(M(name=g.name(used), value=k * 3 - 2, given=k * 3 - 2, doc=None, labels=labs(full)))
        c.enums.append(e)
    for _ in range(r.randint(0, 2)):
        b = M(name=g.name(), doc=None, items=[], isnull=labs(full), isunset=labs(full)); used = set()
        for k in range(r.randint(1, 3)): b['items'].append(M(name=g.name(used), value=k * 21, doc=None, labels=labs(full)))
        c.bits.append(b)
    st = M(name=g.name(), doc=None, fields=[M(name='id', type='int', rowid=True, limits=[])], ins=False, updates=[], deletes=[], searches=[], uniques=[], roleops=[], fn=set(['id']))
    c.structs.append(st)
    for _ in range(r.randint(2, 6)):
        f = M(name=g.name(st.fn), type=r.choice(('text', 'text', 'email', 'int', 'epoch', 'real', 'real', 'date', 'enum', 'bit', 'bits')), doc=None, limits=[])
        if f.type == 'bits':
            if not c.bits: f.type = 'int'
            else: f.of = r.choice(c.bits).name
        if f.type == 'enum': f.of = r.choice(c.enums).name; f.default = r.choice([e for e in c.enums if e.name == f.of][0]['items']).name
        elif f.type in ('text', 'email'): f.default = '"' + soup(r) + '"'
        elif f.type == 'real': f.default = g.rl()
        elif f.type == 'date': f.default = '%04d-%02d-%02d' % (r.choice((r.randint(1902, 2200), 1970)), r.randint(1, 12), r.randint(1, 28))
        elif f.type == 'bit': f.default = '%d' % r.randint(0, 63)
        else: f.default = '%d' % g.big()
        if f.type in ('int', 'epoch', 'date', 'bit') and r.random() < .5: f.limits.append((r.choice(('ge', 'lt')), '%d' % g.big()))
        if f.type == 'real' and r.random() < .5: f.limits.append((r.choice(('ge', 'lt')), g.rl()))
        st.fields.append(f)
    c.structs.append(M(name=g.name(), doc=None, fields=[M(name='id', type='int', rowid=True, limits=[])] + [M(name='l%d' % k, type='enum' if x in c.enums else 'bits', of=x.name, limits=[]) for k, x in enumerate(c.enums + c.bits)], ins=False, updates=[], deletes=[], searches=[], uniques=[], roleops=[], fn=set()))
    return c, full

def alllabels(c):
    """[(what, labels)] of items, then of unset and null"""
    for e in c.enums:
        for x in e['items']: yield (e.name, x.name), x.labels
        yield (e.name, '*null'), e.isnull
    for e in c.bits:
        for x in e['items']: yield (e.name, x.name), x.labels
        yield (e.name, '*null'), e.isnull
        yield (e.name, '*unset'), e.isunset

JSDOM = '''
declare const process: any;
(globalThis as any).HTMLElement = class {};
(globalThis as any).document = { documentElement: { lang: '' }, createTextNode: (t: string) => t };
const __out: any = {};
for (const lang of ['', 'en', 'fr', 'de']) {
  (globalThis as any).document.documentElement.lang = lang;
  const f = (k: string, o: any, v: any) => { const e: any = { text: null, classList: { add() {}, contains() { return false; } }, replaceChildren(t: string) { this.text = t; } }; o.format(e, null, v); __out[k + ' ' + lang] = e.text; };
%s
}
console.log(JSON.stringify(__out));
'''
def p09(ctx):
    import sqlite3, sql
    import xml.etree.ElementTree as ET
    d = os.path.join(ctx.scratch.dir, 'p09'); os.makedirs(d, exist_ok=True)
    js = noderun.esbuild() and shutil.which('node')
    if not js: ctx.notes.append('node or esbuild missing: JavaScript not run')
    def one(i):
        c, full = strings_config(i); w0 = {}; src = to_ort(c, w0); fs = {'config.ort': src}
        ctx.case(src, src)
        st = c.structs[0]
        # JSON
        x = run(ctx, 'ort-json', src)
        if x is None: return
        j = readjson(ctx, 'ort-json output', x.text, src)
        if j is None: return
        try: a = canon(copy.deepcopy(j), True); a0 = canon(copy.deepcopy(j))
        except (KeyError, TypeError, AttributeError) as e: return ctx.problem('ort-json output lacks %r' % e, dict(fs, output=x.text))
        dd = diff(expect(c, w0), a)
        if dd: return ctx.problem('ort-json: ' + '; '.join(dd[:3]), dict(fs, output=x.text), 'ort-json config.ort')
        # the canonical configuration
        r = run(ctx, 'ort', src)
        if r is None: return
        x = ctx.t.run('ort-json', stdin=r.out)
        if x.rc: return ctx.problem('the canonical configuration is refused: ' + x.etext[-200:], dict(fs, canonical=r.text), 'ort config.ort | ort-json')
        dd = diff(ws(a0), ws(canon(readjson(ctx, 'ort-json output', x.text, src) or {})))
        if dd: return ctx.problem('the canonical configuration: ' + '; '.join(dd[:3]), dict(fs, canonical=r.text), 'ort config.ort')
        # SQL
        old = M(c); b = M(st); b.fields = st.fields[:1]; old['structs'] = [b] + c.structs[1:]
        fa, fb = ctx.scratch.file(to_ort(old)), ctx.scratch.file(src)
        try: r = ctx.t.run('ort-sqldiff', [fa, fb])
        finally: os.unlink(fa); os.unlink(fb)
        fs2 = dict(fs, **{'old.ort': to_ort(old), 'output.sql': r.text})
        if r.rc: return ctx.problem('ort-sqldiff fails: ' + r.etext[-200:], fs2, 'ort-sqldiff old.ort config.ort')
        db = sqlite3.connect(':memory:')
        try:
            db.executescript(sql.ddl(old)); db.execute('INSERT INTO "%s" VALUES (1)' % st.name)
            try: db.executescript(r.text)
            except (sqlite3.Error, sqlite3.Warning, ValueError) as e: return ctx.problem('the output of ort-sqldiff is no valid SQL: %s' % e, fs2, 'ort-sqldiff old.ort config.ort')
            for f in st.fields[1:]:
                w = defval(c, f)
                if f.type in ('int', 'bit', 'bits', 'epoch', 'date'): w = int(w)
                elif f.type == 'real': w = float(w)
                elif f.type == 'enum': w = [y.value for e in c.enums if e.name == f.of for y in e['items'] if y.name == f.default][0]
                try: g = db.execute('SELECT "%s" FROM "%s"' % (f.name, st.name)).fetchone()[0]
                except sqlite3.Error as e: return ctx.problem('column %s: %s' % (f.name, e), fs2, 'ort-sqldiff old.ort config.ort')
                if g != w: return ctx.problem('the default of %s is %r in SQL, not %r' % (f.name, g, w), fs2, 'ort-sqldiff old.ort config.ort')
        finally: db.close()
        # JavaScript
        L = list(alllabels(c))
        if js:
            r = run(ctx, 'ort-javascript', src, '-S', ctx.repo)
            if r is None: return
            calls = []
            for e in c.enums:
                for y in e['items']: calls.append('f(%s, ort.%s, %s);' % (json.dumps(e.name + '.' + y.name), e.name, json.dumps(str(y.value))))
                calls.append('f("%s.*null", ort.%s, null);' % (e.name, e.name))
            for e in c.bits:
                for y in e['items']: calls.append('f(%s, ort.%s, %s);' % (json.dumps(e.name + '.' + y.name), e.name, json.dumps(str(2**y.value))))
                calls.append('f("%s.*null", ort.%s, null); f("%s.*unset", ort.%s, "0");' % ((e.name,) * 4))
            n = 's%d' % i
            e = noderun.build(d, n, (r.text + JSDOM % '\n'.join(calls)).encode('utf-8', 'surrogateescape'))
            if e: clean(d, n); return ctx.problem('ort-javascript: the TypeScript does not parse: ' + e, dict(fs, output=r.text), 'ort-javascript config.ort')
            rc, out, err = sub(['node', '--no-warnings', os.path.join(d, n + '.mjs')])
            clean(d, n)
            if rc: return ctx.problem('ort-javascript: the module fails: ' + err.decode('utf-8', 'replace')[-400:], dict(fs, output=r.text), 'ort-javascript config.ort')
            got = json.loads(out)
            for (en, it), lab in L:
                for l in ('', 'en', 'fr', 'de'):
                    w = unq(lab.get(l, lab.get('', '')))
                    g = got.get('%s.%s %s' % (en, it, l))
                    if g != w: return ctx.problem('ort-javascript shows %r for %s.%s in language %r, not %r' % (g, en, it, l, w), dict(fs, output=r.text), 'ort-javascript config.ort')
        # XLIFF
        r = ctx.t.run('ort-xliff', stdin=src)
        fs3 = dict(fs, output=r.text)
        if r.rc: return ctx.problem('ort-xliff fails: ' + r.etext[-300:], fs3, 'ort-xliff config.ort')
        try: root = ET.fromstring(r.out)
        except ET.ParseError as e: return ctx.problem('the output of ort-xliff is no valid XML: %s' % e, fs3, 'ort-xliff config.ort')
        NS = '{urn:oasis:names:tc:xliff:document:1.2}'
        got = [u.find(NS + 'source').text for u in root.iter(NS + 'trans-unit')]
        must = set(unq(l['']) for (en, it), l in L if '' in l and (it[0] != '*' or any(en == b.name for b in c.bits)))
        may = set(unq(l['']) for k, l in L if '' in l)
        if len(set(got)) != len(got) or not must <= set(got) <= may:
            return ctx.problem('ort-xliff extracts %s, not %s' % (sorted(set(got) - may)[:3], sorted(must - set(got))[:3]), fs3, 'ort-xliff config.ort')
        if not full: return
        # and joined again
        rnd = random.Random(i); tr = {}
        xs = lambda t: t.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', rnd.choice(('&quot;', '"'))).replace("'", rnd.choice(('&apos;', "'")))
        for s in may:
            t = unq(soup(rnd, True, False)); t = t.strip() and t or 'k'
            if t.endswith('\\'): t += '.'
            while '\\"' in t: t = t.replace('\\"', '"')   # quotes may come escaped
            tr[s] = t
        xl = '<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"><file source-language="en" original="a &amp; &quot;b&quot;" target-language="es" datatype="plaintext"><body>%s</body></file></xliff>' % ''.join('<trans-unit id="%d"><source>%s</source><target>%s</target></trans-unit>' % (k + 1, xs(s), xs(t)) for k, (s, t) in enumerate(tr.items()))
        fa, fb = ctx.scratch.file(src), ctx.scratch.file(xl, '.xlf')
        try: r = ctx.t.run('ort-xliff', ['-j', fa, fb]); u = ctx.t.run('ort-xliff', ['-u', fa, fb])
        finally: os.unlink(fa); os.unlink(fb)
        fs4 = dict(fs, **{'join.xlf': xl, 'output': r.text, 'updated': u.text})
        if r.rc or u.rc: return ctx.problem('ort-xliff -j or -u fails: ' + (r if r.rc else u).etext[-300:], fs4, 'ort-xliff -j config.ort join.xlf')
        try: root = ET.fromstring(u.out)
        except ET.ParseError as e: return ctx.problem('the output of ort-xliff -u is no valid XML: %s' % e, fs4, 'ort-xliff -u config.ort join.xlf')
        got = dict((v.find(NS + 'source').text, v.find(NS + 'target').text) for v in root.iter(NS + 'trans-unit'))
        if got != tr: return ctx.problem('ort-xliff -u changes translations: %s' % [(k, got.get(k), tr.get(k)) for k in set(got) | set(tr) if got.get(k) != tr.get(k)][:2], fs4, 'ort-xliff -u config.ort join.xlf')
        x = ctx.t.run('ort-json', stdin=r.out)
        if x.rc: return ctx.problem('the joined configuration is refused: ' + x.etext[-200:], fs4, 'ort-xliff -j config.ort join.xlf | ort-json')
        j = readjson(ctx, 'ort-json output', x.text, src)
        if j is None: return
        j = j['config']
        for (en, it), lab in L:
            bit = any(en == b.name for b in c.bits)
            if it[0] == '*' and not bit: continue
            o = (j['bq'] if bit else j['eq'])[en]
            g = (o['labelsNull'] if it == '*null' else o['labelsUnset'] if it == '*unset' else o['bq' if bit else 'eq'][it]['labels']).get('es', {}).get('value')
            w = re.sub(r'[ \t\n\v\f\r]+', ' ', tr[unq(lab[''])])
            if g != w: return ctx.problem('ort-xliff -j gives %s.%s the translation %r, not %r' % (en, it, g, w), fs4, 'ort-xliff -j config.ort join.xlf')
    ctx.each(1500, one, 45)

# ------------------------------------------------------------------- P08
def strip(text, lang):
    """the text without comments (each becomes a space) and with white space
    outside literals collapsed; raises ValueError if it ends inside one"""
    out = []; i = 0; n = len(text)
    def sp():
        if out and out[-1] != ' ': out.append(' ')
    while i < n:
        c = text[i]; two = text[i:i + 2]
        if two == '/*' :
            if lang == 'rust':
                d = 0
                while i < n:
                    if text[i:i + 2] == '/*': d += 1; i += 2
                    elif text[i:i + 2] == '*/':
                        d -= 1; i += 2
                        if d == 0: break
                    else: i += 1
                if d: raise ValueError('comment does not end')
            else:
                j = text.find('*/', i + 2)
                if j < 0: raise ValueError('comment does not end')
                i = j + 2
            sp(); continue
        if (two == '//' and lang != 'sql') or (two == '--' and lang == 'sql'):
            while i < n:
                if text[i] == '\n' or (lang == 'js' and text[i] in '\r\u2028\u2029'): break
                if lang == 'c' and text[i] == '\\' and text[i + 1:i + 2] == '\n': i += 1   # continued
                i += 1
            sp(); continue
        if c in '"\'' or (c == '`' and lang == 'js'):
            if lang == 'rust' and c == "'":
                m = re.match(r"'(\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F]+\}|\\.|[^\\'])'", text[i:i + 14])
                if not m: out.append(c); i += 1; continue   # a lifetime
                out.append(m.group(0)); i += m.end(); continue
            j = i + 1
            while True:
                if j >= n: raise ValueError('string does not end')
                if text[j] == '\\' and lang != 'sql': j += 2; continue
                if text[j] == c:
                    if lang == 'sql' and text[j + 1:j + 2] == c: j += 2; continue
                    break
                if text[j] == '\n' and lang in ('c', 'js') and c != '`': raise ValueError('string does not end in its line')
                j += 1
            out.append(text[i:j + 1]); i = j + 1; continue
        if c in ' \t\n\r\f\v': sp(); i += 1; continue
        out.append(c); i += 1
    return ''.join(out).strip()

DOCS = ['*/', '*\\/', '/*', '//', '--', '\n', '\n\n', '\\"', "'", '`', '\\', '\\\n', '??/', '*', '/', '**/', '*/ int x;', '; DROP TABLE x;', '\r', '\u2028', '\t', '${x}', '<b>', '@param', '*\n/', '* /', '*\t/', '*\\\n/', '\n/', '\n*/', '#define x', '\\x', '.', 'w' * 60, 'aaaa bbbb cccc dddd eeee ffff', 'é', '\n.Dd', '}', '{', '#']
def evildoc(r):
    t = ''.join(r.choice(DOCS) + (' ' if r.random() < .3 else '') for _ in range(r.choice((1, 1, 2, 3, 6, 20))))
    if r.random() < .3: t = 'x' * r.randint(55, 75) + t
    t = t.replace('\r\n', '\n')
    return t + ' ' if t.endswith('\\') else t

def strips(c, fn):
    """a copy whose documentation is replaced by fn()"""
    c = copy.deepcopy(c)
    def d(x):
        if 'name' in x or 'kind' in x or 'type' in x: x['doc'] = fn()
    for x in c.roles: d(x)
    for q in (c.enums, c.bits):
        for e in q:
            d(e)
            for x in e['items']: d(x)
    for st in c.structs:
        d(st)
        for q in (st.fields, st.updates, st.deletes, st.searches):
            for x in q:
                if x.get('inherit'): continue
                d(x)
    return c

P08T = [('ort-c-header', ['-jJsv'], 'c'), ('ort-c-header', ['-v'], 'c'), ('ort-c-source', ['-jJv', '-h', 'x.h'], 'c'), ('ort-sql', [], 'sql'), ('ort-javascript', [], 'js'), ('ort-nodejs', ['-v'], 'js'), ('ort-rust', [], 'rust')]
def p08(ctx):
    def one(i):
        r = random.Random(i)
        c0 = Gen(i, docs=0).config()
        c = strips(c0, lambda: evildoc(r) if r.random() < .5 else None)
        s0, s1 = to_ort(strips(c0, lambda: None)), to_ort(c)
        fs = {'config.ort': s1}
        ctx.case(s1, s1)
        def cmp(tool, args, lang, a, b, cmd):
            try: x = strip(a, lang)
            except ValueError as e: x = None
            if x is None: return   # the lexer's limits: nothing to compare with
            try: y = strip(b, lang)
            except ValueError as e: ctx.problem('%s: with documentation, a %s' % (tool, e), dict(fs, output=b), cmd); return
            if x != y:
                k = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), min(len(x), len(y)))
                ctx.problem('%s: documentation escapes its comment: %r' % (tool, y[max(0, k - 60):k + 120]), dict(fs, output=b), cmd)
        for tool, args, lang in P08T:
            if tool in ('ort-c-source', 'ort-javascript'): args = args + ['-S', ctx.repo]
            a = run(ctx, tool, s0, *args)
            if a is None: return
            b = run(ctx, tool, s1, *args)
            if b is None: return
            cmp(tool, args, lang, a.text, b.text, '%s %s config.ort' % (tool, ' '.join(args)))
        # tables and columns which are new
        old = 'struct zzz { field id int rowid; };\n'
        f = [ctx.scratch.file(x) for x in (old, s0, s1)]
        try: a = ctx.t.run('ort-sqldiff', ['-d', f[0], f[1]]); b = ctx.t.run('ort-sqldiff', ['-d', f[0], f[2]])
        finally:
            for x in f: os.unlink(x)
        if a.rc == 0 and b.rc == 0: cmp('ort-sqldiff', [], 'sql', a.text, b.text, 'ort-sqldiff -d old.ort config.ort')
        elif a.rc != b.rc: ctx.problem('ort-sqldiff: exit %d with documentation, %d without' % (b.rc, a.rc), fs)
    ctx.each(600, one, 45)

# ------------------------------------------------------------------- P11
RESERVED = '''auto break case char const continue default do double enum extern float goto long register short signed static struct
typedef union unsigned void volatile ABORT ACTION ADD AFTER ALL ALTER ANALYZE AND AS ASC BEGIN BETWEEN BY CASCADE CAST
CHECK COLUMN COMMIT CONSTRAINT CREATE CROSS CURRENT_DATE DELETE DESC DISTINCT DROP END EXISTS FOREIGN FROM GROUP HAVING
IN INDEX INNER INSERT INTO IS ISNULL JOIN KEY LEFT LIKE LIMIT MATCH NOT NULL OFFSET ON OR ORDER OUTER PRAGMA PRIMARY
REFERENCES REPLACE RIGHT ROLLBACK ROW SELECT SET TABLE TEMP THEN TO TRIGGER UNION UNIQUE UPDATE USING VALUES VIEW WHEN
WHERE WITH'''.split()
TYPES = 'bit blob date email epoch int password real text'.split()

def swapcase(r, s): return ''.join(ch.upper() if r.random() < .5 else ch for ch in s)

def violations(r, c):
    """all ways of breaking one rule of ort(5) in the valid configuration c:
    (rule, place, text); place is ('struct', name), 'top' or a function
    changing the lines"""
    out = []
    roles = [x.name for x in c.roles]
    by = dict((s.name, s) for s in c.structs)
    def add(rule, st, text): out.append((rule, ('struct', st.name), text))
    def top(rule, text): out.append((rule, 'top', text))
    def someref(st, pred):
        x = [f for f in st.fields if pred(f)]
        return r.choice(x) if x else None
    tops = [x.name for x in c.structs + c.enums + c.bits]
    for k in ('enum', 'bits', 'struct'):
        body = {'enum': 'item qa;', 'bits': 'item qa 0;', 'struct': 'field qa;'}[k]
        top('%s of a used name' % k, '%s %s { %s };' % (k, swapcase(r, r.choice(tops)), body))
        top('%s of a reserved name' % k, '%s %s { %s };' % (k, swapcase(r, r.choice(RESERVED).lower()), body))
        top('empty %s' % k, '%s zzqq { };' % k)
        top('%s without semicolon' % k, '%s zzqq { %s }' % (k, body[:-1]))
    top('unknown top-level statement', r.choice(('structs zzqq { field qa; };', 'field qa;', ';', '"text"', '{ };', '5;', 'table zzqq { };')))
    top('items of one name', 'enum zzqq { item qa %d; item qb; item %s; };' % (r.randint(0, 9), swapcase(r, 'qa')))
    top('items of one value', 'enum zzqq { item qa %d; item qb; item qc %d; };' % ((r.randint(-9, 9),) * 2))
    top('reserved item', 'enum zzqq { item %s; };' % swapcase(r, r.choice(RESERVED + ['format']).lower()))
    top('bits of one name', 'bits zzqq { item qa 1; item %s 2; };' % swapcase(r, 'qa'))
    top('bits of one index', 'bits zzqq { item qa 7; item qb 8; item qc 7; };')
    top('bit outside the mask', 'bits zzqq { item qa %d; };' % r.choice((-1, 64, 65, 2**31, 2**32, 2**40, 2**63 - 1)))
    top('bit without index', 'bits zzqq { item qa; };')
    top('two labels of one language', 'enum zzqq { item qa jslabel%s "a" jslabel.fr "b" jslabel%s "c"; };' % ((r.choice(('', '.en', '.de')),) * 2))
    top('empty label', 'enum zzqq { item qa jslabel ""; };')
    top('two comments', 'enum zzqq { item qa comment "a" comment "b"; };')
    top('self-containing structure', 'struct zzqq { field id int rowid; field qa:zzqq.id; field qb struct qa; };')
    top('mutually containing structures', 'struct zzqq { field id int rowid; field qa:zzqr.id; field qb struct qa; }; struct zzqr { field id int rowid; field qa:zzqq.id; field qb struct qa; };')
    if c.hasroles:
        top('second roles block', 'roles { role zzqq; };')
        x = r.choice(roles)
        def ins(new):
            def fn(lines):
                k = [i for i, l in enumerate(lines) if l == 'roles {'][0]
                e = [i for i, l in enumerate(lines) if l == '};' and i > k][0]
                at = [i for i in range(k + 1, e + 1) if True]
                return lines[:r.choice(at)], new
            return fn
        def roleline(new):
            def fn(lines):
                k = lines.index('roles {'); e = lines.index('};', k)
                i = r.randint(k + 1, e)
                return lines[:i] + ['\t' + new] + lines[i:]
            return fn
        out.append(('two roles of one name', roleline('role %s;' % swapcase(r, x)), None))
        out.append(('two roles of one name, nested', roleline('role zzqq { role zzqr { role %s; }; };' % swapcase(r, x)), None))
        out.append(('reserved role', roleline('role %s;' % swapcase(r, r.choice(('all', 'none', 'default')))), None))
        out.append(('no role', roleline('roll zzqq;'), None))
    for st in c.structs:
        F = st.fields; nat = [f for f in F if f.type != 'struct']; sub_ = [f for f in F if f.type == 'struct']
        f = r.choice(F)
        add('two fields of one name', st, 'field %s %s;' % (swapcase(r, f.name), r.choice(TYPES)))
        add('reserved field', st, 'field %s;' % swapcase(r, r.choice(RESERVED).lower()))
        add('unknown type', st, 'field zzqq %s;' % r.choice(('number', 'string', 'bool', 'foo')))
        add('unknown enumeration', st, 'field zzqq enum zznope;')
        add('unknown bit field', st, 'field zzqq bits zznope;')
        if c.bits: add('enumeration naming a bit field', st, 'field zzqq enum %s;' % r.choice(c.bits).name)
        if c.enums: add('bit field naming an enumeration', st, 'field zzqq bits %s;' % r.choice(c.enums).name)
        add('reference to an unknown structure', st, 'field zzqq:zznope.id int;')
        tg = r.choice(c.structs)
        add('reference to an unknown field', st, 'field zzqq:%s.zznope int;' % tg.name)
        g = someref(tg, lambda f: f.type in TYPES and not f.rowid and not f.unique)
        if g: add('reference to a field which is not unique', st, 'field zzqq:%s.%s %s;' % (tg.name, swapcase(r, g.name), g.type))
        g = someref(tg, lambda f: (f.rowid or f.unique) and f.type in TYPES)
        if g: add('reference of another type', st, 'field zzqq:%s.%s %s;' % (tg.name, g.name, r.choice([t for t in TYPES if t != g.type])))
        if g: add('reference being a structure', st, 'field zzqq:%s.%s struct %s;' % (tg.name, g.name, f.name))
        add('structure of an unknown field', st, 'field zzqq struct zznope;')
        g = someref(st, lambda f: f.type != 'struct' and not f.ref)
        if g: add('structure of a field which is no reference', st, 'field zzqq struct %s;' % g.name)
        if sub_: add('structure of a structure', st, 'field zzqq struct %s;' % r.choice(sub_).name)
        if any(f.rowid for f in F): add('second rowid', st, 'field zzqq int rowid;')
        else:
            add('two rowids', st, 'field zzqq int rowid; field zzqr int rowid;')
            add('rowid of another type', st, 'field zzqq %s rowid;' % r.choice([t for t in TYPES if t != 'int']))
            add('rowid which may be null', st, 'field zzqq int %s;' % r.choice(('rowid null', 'null rowid')))
            g = someref(tg, lambda f: (f.rowid or f.unique) and f.type == 'int' and not f.ref)
            if g: add('rowid which is a reference', st, 'field zzqq:%s.%s int rowid;' % (tg.name, g.name))
        g = someref(st, lambda f: f.ref and f.type != 'struct')
        if g:
            for w in ('unique', 'null', 'rowid', 'limit ge 1', 'default 1', 'actup none', 'actdel cascade'):
                add('structure with %s' % w, st, 'field zzqq struct %s %s;' % (g.name, w))
            t = r.choice(c.structs); h = someref(t, lambda f: (f.rowid or f.unique) and f.type in TYPES)
            if h:
                act = r.choice(('actup', 'actdel'))
                add('nullify without null', st, 'field zzqq:%s.%s %s %s nullify;' % (t.name, h.name, h.type, act))
                add('default action without default', st, 'field zzqq:%s.%s %s %s default;' % (t.name, h.name, h.type, act))
                add('unknown action', st, 'field zzqq:%s.%s %s null %s zznope;' % (t.name, h.name, h.type, act))
        add('action without reference', st, 'field zzqq int %s cascade;' % r.choice(('actup', 'actdel')))
        if c.enums:
            e = r.choice(c.enums)
            add('limit of an enumeration', st, 'field zzqq enum %s limit ge 1;' % e.name)
            add('unknown default item', st, 'field zzqq enum %s default zznope;' % e.name)
            add('number as default item', st, 'field zzqq enum %s default 1;' % e.name)
        add('unknown limit', st, 'field zzqq int limit %s 1;' % r.choice(('ne', 'neq', 'max', 'foo', 'like')))
        op = r.choice(('ge', 'gt', 'le', 'lt', 'eq'))
        for t, v in (('int', '1'), ('text', '3'), ('real', '1.5'), ('date', '5'), ('epoch', '-5'), ('blob', '9'), ('password', '9'), ('email', '9'), ('bit', '1')):
            add('one limit twice', st, 'field zzqq %s limit %s %s limit %s 7 limit %s %s;' % (t, op, v, r.choice([o for o in ('ge', 'gt', 'le', 'lt', 'eq') if o != op]), op, v))
        add('fractional limit of integers', st, 'field zzqq %s limit %s 1.5;' % (r.choice(('int', 'date', 'epoch', 'bit')), op))
        add('negative length', st, 'field zzqq %s limit %s -%d;' % (r.choice(('text', 'email', 'password', 'blob')), op, r.choice((1, 2**31, 2**63 - 1))))
        add('fractional length', st, 'field zzqq text limit %s 1.5;' % op)
        add('limit of text', st, 'field zzqq int limit %s "5";' % op)
        add('default of another type', st, 'field zzqq %s;' % r.choice(('int default "5"', 'int default 1.5', 'text default 5', 'text default foo', 'real default "a"', 'epoch default "1"',
            'date default 2001-00-01', 'date default 2001-01-00', 'date default "2001-01-01"', 'blob default "a"', 'blob default 5', 'password default "a"', 'email default 4')))
        add('two comments', st, 'field zzqq comment "a" comment "b";')
        add('unknown field property', st, 'field zzqq int %s;' % r.choice(('nul', 'primary', 'notnull', 'foo', '5', '"x"')))
        add('unknown statement', st, r.choice(('fields zzqq;', 'index %s;' % f.name, ';', 'select %s;' % f.name, '"x";')))
        # unique
        if nat:
            add('unique of one field', st, 'unique %s;' % r.choice(nat).name)
            add('unique naming a field twice', st, 'unique %s, %s;' % ((swapcase(r, nat[0].name), nat[0].name)))
            add('unique naming an unknown field', st, 'unique %s, zznope;' % r.choice(nat).name)
            if sub_: add('unique naming a structure', st, 'unique %s, %s;' % tuple(r.sample([r.choice(nat).name, r.choice(sub_).name], 2)))
        if len(nat) > 1 and not st.uniques:
            u = [x.name for x in r.sample(nat, r.randint(2, len(nat)))]
            v = list(u); r.shuffle(v)
            add('one unique statement twice', st, 'unique %s; unique %s;' % (', '.join(u), ', '.join(swapcase(r, x) for x in v)))
        if st.uniques:
            v = list(r.choice(st.uniques)); r.shuffle(v); add('one unique statement twice', st, 'unique %s;' % ', '.join(v))
        # updates and deletes
        cons = lambda t: r.choice(('update %s: ' + t + ': name zzqq;',)) % (r.choice(nat).name) if nat and r.random() < .5 else 'delete ' + t + ': name zzqq;'
        add('constraint on an unknown field', st, cons('zznope'))
        if sub_: add('constraint on a structure', st, cons(r.choice(sub_).name))
        P = [x for x in nat if x.type == 'password']; N = [x for x in nat if x.type not in ('text', 'email')]
        if P: add('constraint hashing a password', st, cons('%s %s' % (r.choice(P).name, r.choice(('eq', 'neq', 'lt', 'gt', 'le', 'ge', 'and', 'or')))))
        if N: add('like of what is no text', st, cons('%s like' % r.choice(N).name))
        if nat:
            add('unknown operator', st, cons('%s %s' % (r.choice(nat).name, r.choice(('equals', 'ne', 'foo')))))
            add('unknown modifier', st, 'update %s %s: : name zzqq;' % (r.choice(nat).name, r.choice(('add', 'mul', 'append'))))
        add('modifying an unknown field', st, 'update zznope: : name zzqq;')
        if sub_: add('modifying a structure', st, 'update %s: : name zzqq;' % r.choice(sub_).name)
        T = [x for x in nat if x.type not in ('text', 'email', 'blob')]
        if T: add('concat of what is no text', st, 'update %s concat: : name zzqq;' % r.choice(T).name)
        T = [x for x in nat if x.type in ('text', 'email', 'blob', 'password')]
        if T: add('counting what is no number', st, 'update %s %s: : name zzqq;' % (r.choice(T).name, r.choice(('inc', 'dec'))))
        for k, q in (('update', st.updates), ('delete', st.deletes)):
            nm = [u.name for u in q if u.name]
            if nm and nat: add('two %ss of one name' % k, st, ('update %s: : name %s;' if k == 'update' else 'delete %s: name %s;') % (r.choice(nat).name, swapcase(r, r.choice(nm))))
        if st.ins: add('second insert', st, 'insert;')
        # searches
        k = r.choice(('list', 'iterate', 'count', 'search'))
        lim = ' limit 1' if k == 'search' else ''
        def srch(rule, t, extra='', kind=None): add(rule, st, '%s %s: name zzqq%s%s;' % (kind or k, t, lim, ' ' + extra if extra else ''))
        srch('search of an unknown field', 'zznope')
        if sub_: srch('search of a structure', r.choice(sub_).name)
        if nat:
            srch('search through what is no structure', r.choice(nat).name + '.id')
            srch('unknown operator', r.choice(nat).name + ' foo')
            srch('ordered by an unknown field', r.choice(nat).name, 'order zznope')
            srch('unknown parameter', r.choice(nat).name, r.choice(('sorted', 'by zz', 'offset 5')))
            srch('negative limit', r.choice(nat).name, r.choice(('limit -1', 'limit 5, -1', 'limit 1.5', 'limit x')))
            srch('distinct unknown field', r.choice(nat).name, 'distinct zznope')
            srch('distinct native field', r.choice(nat).name, 'distinct ' + r.choice(nat).name)
            if sub_: srch('ordered by a structure', r.choice(nat).name, 'order ' + r.choice(sub_).name)
        for g in sub_:
            tn = by[g.tgt].fields
            x = r.choice(tn)
            if by[st.name] and [f for f in st.fields if f.name == g.src][0].null:
                for rule, t, extra in (('search through a nullable reference', g.name + '.' + x.name, ''), ('distinct nullable reference', '', 'distinct ' + g.name)) + (
                        (('ordered through a nullable reference', '', 'order %s.%s' % (g.name, x.name)),)):
                    if t or k != 'search': srch(rule, t, extra)
            srch('search of an unknown field of a structure', g.name + '.zznope')
        dsub = [x for x in sub_ if not x.null]
        if P:
            for kk, op in (('count', r.choice(('eq', 'neq', 'lt'))), ('list', r.choice(('lt', 'gt', 'le', 'ge'))), ('iterate', r.choice(('like', 'and', 'or')))):
                add('password search by %s' % op, st, '%s %s %s: name zzqq;' % (kk, r.choice(P).name, op))
            add('password search of distinct rows', st, 'list %s: name zzqq distinct %s;' % (r.choice(P).name, r.choice(['.'] + [x.name for x in dsub])))
        T = [x for x in nat if x.type not in ('text', 'email', 'password')]
        if T: srch('search like what is no text', r.choice(T).name + ' like')
        T = [x for x in nat if x.type not in ('bit', 'bits', 'int', 'password')]
        if T: srch('bit operator on what is no bit field', r.choice(T).name + ' ' + r.choice(('and', 'or')))
        nm = [q.name for q in st.searches if q.name]
        if nm and nat: add('two searches of one name', st, 'list %s: name %s;' % (r.choice(nat).name, swapcase(r, r.choice(nm))))
        gp = [f for f in nat if not f.null and f.type != 'password']
        if gp:
            add('group without aggregate', st, 'list: name zzqq grouprow %s;' % r.choice(gp).name)
            add('aggregate without group', st, 'list: name zzqq %s %s;' % (r.choice(('minrow', 'maxrow')), r.choice(gp).name))
            x = r.choice(gp).name
            add('group and aggregate of one field', st, 'list: name zzqq grouprow %s maxrow %s;' % (x, swapcase(r, x)))
            nl = [f for f in F if f.null and f.type != 'struct' or f.type in ('password', 'struct')]
            for f in nl[:2]: add('group or aggregate of a %s%s' % ('nullable ' if f.null else '', f.type), st, 'list: name zzqq grouprow %s minrow %s;' % tuple(r.sample([x, f.name], 2)))
            add('unknown group', st, 'list: name zzqq grouprow zznope minrow %s;' % x)
            add('unknown aggregate', st, 'list: name zzqq grouprow %s minrow zznope;' % x)
            for g in dsub:
                y = [f for f in by[g.tgt].fields if f.type not in ('struct', 'password') and not f.null]
                if y: add('group and aggregate of different structures', st, 'list: name zzqq grouprow %s maxrow %s.%s;' % (x, g.name, r.choice(y).name))
        # roles
        if c.hasroles:
            x = r.choice(roles)
            add('unknown role', st, 'roles zznope { all; };')
            add('role none', st, 'roles %s { noexport; };' % r.choice(('none', 'NONE', '%s, none' % x)))
            add('rolemap of an unknown kind', st, 'roles %s { %s; };' % (x, r.choice(('export', 'select x', 'everything'))))
            for kk in ('update', 'delete', 'search', 'list', 'iterate', 'count', 'noexport'): add('rolemap of an unknown %s' % kk, st, 'roles %s { %s zznope; };' % (x, kk))
            for kk in ('update', 'delete', 'search', 'list', 'iterate', 'count'): add('rolemap of a nameless %s' % kk, st, 'roles %s { %s; };' % (x, kk))
            if not st.ins: add('rolemap of an unknown insert', st, 'roles %s { insert; };' % x)
            for kk in ('insert', 'all'): add('rolemap of a named %s' % kk, st, 'roles %s { %s zz; };' % (x, kk))
            add('a role twice', st, 'roles %s, %s { noexport %s; };' % (x, swapcase(r, x), r.choice(F).name))
            for rs, its in st.roleops:
                kk, n = r.choice(its); add('a role twice for one operation', st, 'roles %s { %s%s; };' % (swapcase(r, r.choice(rs)), kk, ' ' + n if n else ''))
            for q in st.searches:
                if q.name: add('rolemap of another kind of search', st, 'roles %s { %s %s; };' % (x, r.choice([z for z in ('search', 'list', 'iterate', 'count', 'update', 'delete') if z != q.type
                                                                                                     and not (z in ('update', 'delete') and q.name in [u.name for u in (st.updates if z == 'update' else st.deletes)])]), q.name))
        else: add('role without roles', st, 'roles zzqq { all; };')
    return out

def placed(r, lines, place, text):
    """insert the statement at a random place"""
    if callable(place): return place(lines)
    if place == 'top':
        at = [0] + [i + 1 for i, l in enumerate(lines) if l == '};']
        i = r.choice(at); return lines[:i] + [text] + lines[i:]
    k = lines.index('struct %s {' % place[1]); e = lines.index('};', k)
    i = r.randint(k + 1, e)
    return lines[:i] + ['\t' + text] + lines[i:]

def shuffled(r, lines):
    """statements of each block in another order, names in other case"""
    out = []; blocks = []; i = 0
    while i < len(lines):
        j = lines.index('};', i) if re.match(r'(roles|(struct|enum|bits) \w+) \{$', lines[i]) else i
        blocks.append(lines[i:j + 1]); i = j + 1
    if r.random() < .7: r.shuffle(blocks)
    for b in blocks:
        if len(b) == 1: out += b; continue
        body = b[1:-1]
        if b[0].startswith('struct ') and r.random() < .7: r.shuffle(body)
        out += [b[0]] + body + [b[-1]]
    return out

def recase(r, src, names):
    def w(m): return swapcase(r, m.group(0)) if m.group(0) in names else m.group(0)
    return ''.join(x if x.startswith('"') else re.sub(r'[a-z][a-z0-9]*', w, x) for x in re.split(r'("(?:\\.|[^"\\])*")', src))

def p11(ctx):
    ctx.rules.append('a configuration following the rules of ort(5) is accepted, in any order of its statements and any case of its names')
    ctx.rules.append('one broken rule of ort(5), anywhere in a configuration, is refused with an error naming a position (about 130 kinds of rules)')
    def one(i):
        r = random.Random(i)
        c = Gen(i, docs=.1, labels=.1, roles=.8).config()
        lines = to_ort(c).rstrip('\n').split('\n')
        names = set(x.name for x in c.structs + c.enums + c.bits + c.roles) | set(f.name for s in c.structs for f in s.fields)
        src = '\n'.join(shuffled(r, lines)) + '\n'
        if r.random() < .5: src = recase(r, src, names)
        x = ctx.t.run('ort', stdin=src)
        ctx.case(('accept', i), src)
        if x.rc != 0: ctx.problem('ort refuses a valid configuration: %s' % x.etext[-300:], {'config.ort': src}, 'ort config.ort'); return
        vs = violations(r, c)
        rules = {}
        for v in vs: rules.setdefault(v[0], []).append(v)
        ks = sorted(rules)
        for k in r.sample(ks, min(len(ks), 14)):
            v = r.choice(rules[k])
            ls = placed(r, lines, v[1], v[2])
            src = '\n'.join(ls if callable(v[1]) or r.random() < .5 else shuffled(r, ls)) + '\n'
            if r.random() < .2: src = recase(r, src, names)
            ctx.case((k, v[2]), None)
            rejected(ctx, src, '%s: %s' % (k, v[2]) if v[2] else k)
            if r.random() < .1: rejected(ctx, src, '%s: %s' % (k, v[2]) if v[2] else k, r.choice(('ort-json', 'ort-sql', 'ort-c-header', 'ort-audit')))
        # cut off or otherwise malformed text
        src = '\n'.join(lines) + '\n'
        for _ in range(2):
            toks = [m.end() for m in re.finditer(r'"(?:\\.|[^"\\])*"|[A-Za-z0-9_.-]+|[{};:,]', src)]
            opens = [p for p in toks[:-1] if src[:p].count('{') != src[:p].count('}') or True]
            cut = r.choice(opens)
            if src[:cut].count('{') == src[:cut].count('}') and src[:cut].endswith(';'): continue
            ctx.case(('cut', cut, i), None); rejected(ctx, src[:cut] + '\n', 'a configuration cut off')
    ctx.each(420, one, 45)

# ------------------------------------------------------------------- P18
import resource, signal
FAULTY = os.path.join(os.path.dirname(SRC), 'faulty.c')

def tool_runs(ctx, c, d, i):
    """(tool, arguments before the configuration) of every tool, over the
    configuration file d/a.ort and an older one d/o.ort"""
    r = random.Random(i); S = ctx.t.dir; a, o = os.path.join(d, 'a.ort'), os.path.join(d, 'o.ort')
    role = r.choice([x.name for x in c.roles] + ['default']) if c.hasroles else 'default'
    out = [('ort', [a]), ('ort-json', [a]), ('ort-sql', [a]), ('ort-nodejs', [['-ev'], []][r.randrange(2)] + [a]), ('ort-javascript', ['-S', S, a]),
           ('ort-c-header', ['-jJsv', a]), ('ort-c-source', ['-S', S, '-jJv', '-h', 'x.h', a]), ('ort-c-manpage', ['-jJv', a]), ('ort-rust', [a]),
           ('ort-audit', ['-r', role, a]), ('ort-audit', ['-v', '-r', role, a]), ('ort-audit-json', ['-r', role, a]),
           ('ort-diff', [o, a]), ('ort-sqldiff', ['-d', o, a]), ('ort-xliff', [a])]
    x = os.path.join(d, 'x.xliff')
    if os.path.exists(x): out += [('ort-xliff', ['-j', a, x]), ('ort-xliff', ['-u', a, x])]
    return out

def execute(ctx, tool, args, env=None, stdout=None, limit=None, stdin=subprocess.DEVNULL):
    e = dict(ctx.t.env); e.update(env or {})
    def pre():
        if limit is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN); resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    try: r = subprocess.run([os.path.join(ctx.t.dir, tool)] + args, stdin=stdin, stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=30, preexec_fn=pre if limit is not None else None)
    except subprocess.TimeoutExpired: return -1, b'', b'timeout'
    return r.returncode, r.stdout, r.stderr

def succeeded(tool, rc): return rc in (0, 1) if tool == 'ort-diff' else rc == 0
def crashed(rc): return rc < 0 or rc in (134, 139)

def p18(ctx):
    ctx.rules.append('every tool, one write or allocation failing at each distinct call path: failing exit with a message, or the complete output')
    ctx.rules.append('the output file limited to n bytes, /dev/full, a closed standard output: failing exit with a message')
    ctx.rules.append('bad options, missing or unreadable files, rejected configurations: failing exit with a message')
    d = os.path.join(ctx.scratch.dir, 'p18'); os.makedirs(d, exist_ok=True)
    so = os.path.join(d, 'faulty.so')
    r = subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', so, FAULTY, '-ldl'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: so = None; ctx.notes.append('preload library not built: ' + r.stdout.decode('utf-8', 'replace')[-300:])
    ctx.t
    done = set()
    def one(i):
        r = random.Random(i); w = os.path.join(d, 'c%d' % i); os.makedirs(w)
        try:
            g = Gen(i, labels=.4, evil=.2, maxstructs=3, maxfields=6); c = g.config()
            src = to_ort(c); old = to_ort(Gen(i, labels=.4, evil=.2, maxstructs=2).config())
            open(os.path.join(w, 'a.ort'), 'wb').write(src.encode('utf-8', 'surrogateescape'))
            try:
                import mutate
                b = mutate.mutate(copy.deepcopy(c), r); old = to_ort(b[0] if isinstance(b, tuple) else b)
            except Exception: pass
            open(os.path.join(w, 'o.ort'), 'wb').write(old.encode('utf-8', 'surrogateescape'))
            rc, xl, _ = execute(ctx, 'ort-xliff', [os.path.join(w, 'a.ort')])
            if rc == 0:
                xl = re.sub(rb'(<source>)(.*?)(</source>)', lambda m: m.group(0) + b'<target>' + m.group(2) + b'</target>', xl, flags=re.S)
                xl = re.sub(rb'source-language="[^"]*"', b'source-language="TODO" target-language="xx"' if b'target-language' not in xl else b'source-language="TODO"', xl)
                open(os.path.join(w, 'x.xliff'), 'wb').write(xl)
            for k, (tool, args) in enumerate(tool_runs(ctx, c, w, i)):
                rc, out, err = execute(ctx, tool, args)
                fs = {'a.ort': src, 'o.ort': old}
                show = tool + ' ' + ' '.join(os.path.basename(x) for x in args)
                if crashed(rc): ctx.problem('%s crashes (%d)' % (show, rc), fs, show); continue
                if not succeeded(tool, rc):
                    if not err.strip(): ctx.problem('%s fails (%d) without a message' % (show, rc), fs, show)
                    continue
                ctx.case((i, tool), None)
                def bad(what, rc, o, e, cmd):
                    if crashed(rc): ctx.problem('%s crashes (%d) with %s' % (show, rc, what), fs, cmd)
                    elif succeeded(tool, rc):
                        if o is None or o != out: ctx.problem('%s succeeds (%d) with incomplete output (%s bytes of %d) with %s' % (show, rc, 'unknown' if o is None else len(o), len(out), what), fs, cmd)
                    elif not e.strip(): ctx.problem('%s fails (%d) without a message with %s' % (show, rc, what), fs, cmd)
                # file size limits
                if out:
                    for n in sorted(set([0, len(out) - 1, r.randrange(len(out))] + ([4096 * r.randint(1, len(out) // 4096)] if len(out) > 4096 else []))):
                        p = os.path.join(w, 'out%d' % k)
                        with open(p, 'wb') as f: rc2, _, e2 = execute(ctx, tool, args, None, f, n)
                        got = open(p, 'rb').read()
                        if n < len(out): bad('its output limited to %d bytes' % n, rc2, got, e2, "bash -c 'trap \"\" XFSZ; ulimit -f 0; %s > out'" % show)
                    with open('/dev/full', 'wb') as f: rc2, _, e2 = execute(ctx, tool, args, None, f)
                    bad('/dev/full as its output', rc2, b'', e2, show + ' >/dev/full')
                # single faults
                if so is None: continue
                log = os.path.join(w, 'log%d' % k)
                rc2, out2, e2 = execute(ctx, tool, args, {'LD_PRELOAD': so, 'FAULT_LOG': log})
                if rc2 != rc or out2 != out or not os.path.exists(log): ctx.notes.append('preloading changes %s' % tool); continue
                sites = {}
                for l in open(log):
                    p = l.split(); sites.setdefault((tool, p[0], tuple(p[2:])), []).append(p[1])
                new = []
                for s in sorted(sites):
                    with ctx.lock:
                        if s in done: continue
                        done.add(s)
                    new.append(s)
                for s in new:
                    n = r.choice(sites[s]); v = 'FAULT_W' if s[1] == 'w' else 'FAULT_A'
                    rc2, out2, e2 = execute(ctx, tool, args, {'LD_PRELOAD': so, v: n})
                    ctx.case(s, None)
                    bad('%s number %s failing' % ('write' if s[1] == 'w' else 'allocation', n), rc2, out2, e2, 'LD_PRELOAD=faulty.so %s=%s %s' % (v, n, show))
            # inputs which cannot be used
            a = os.path.join(w, 'a.ort'); no = os.path.join(w, 'nosuch'); badp = os.path.join(w, 'bad.ort')
            ls = src.rstrip('\n').split('\n'); vs = violations(r, c); v = r.choice(vs)
            if '\n' not in ''.join((q.doc or '') for q in c.structs): pass
            text = src + r.choice(['struct zzqq {};\n', 'enum zzqq;\n', 'struct zzqq { field a:zznope.b; };\n', '"\n', 'struct zzqq { field a; list b; };\n'])
            open(badp, 'wb').write(text.encode('utf-8', 'surrogateescape'))
            for tool, args in tool_runs(ctx, c, w, i):
                if r.random() < .6: continue
                j = r.choice([q for q, x in enumerate(args) if x.startswith(w)])
                for what, rep in (('a missing file', no), ('a directory for a file', w), ('a rejected configuration', badp)):
                    ag = list(args); ag[j] = rep
                    rc, out, err = execute(ctx, tool, ag); show = tool + ' ' + ' '.join(os.path.basename(x) for x in ag)
                    fs = {'a.ort': src, 'o.ort': old, 'bad.ort': text}
                    if crashed(rc): ctx.problem('%s crashes (%d) given %s' % (show, rc, what), fs, show)
                    elif succeeded(tool, rc): ctx.problem('%s succeeds (%d) given %s' % (show, rc, what), fs, show)
                    elif not err.strip(): ctx.problem('%s fails without a message given %s' % (show, what), fs, show)
                rc, out, err = execute(ctx, tool, ['-Z'] + args)
                if succeeded(tool, rc) or crashed(rc) or not err.strip(): ctx.problem('%s -Z: exit %d, message %r' % (tool, rc, err[:100]), {'a.ort': src})
        finally: shutil.rmtree(w, True)
    ctx.each(60, one, 50)

# ------------------------------------------------------------------- P19
TOKENS = '''struct enum bits bitfield roles role field insert update delete search list iterate count unique comment item isnull isunset jslabel
int bit blob date email epoch password real text struct rowid unique null noexport limit default actup actdel ge gt le lt eq neq like and or
streq strneq isnull notnull name order asc desc distinct grouprow maxrow minrow all none default cascade nullify restrict inc dec concat set strset
{ } ; : , . " \\ # - -1 0 1 64 9223372036854775807 -9223372036854775807 9223372036854775808 1e308 1.5 -0.0 0x10 2000-01-01 99999999999999999999 ;; {} "" "\\"'''.split()

def mangled(r, b, others):
    """a configuration with bytes or tokens changed"""
    b = bytearray(b)
    toks = [m.span() for m in re.finditer(rb'"(?:\\.|[^"\\])*"|[A-Za-z0-9]+|[^\sA-Za-z0-9]', bytes(b))]
    for _ in range(r.choice((1, 1, 1, 2, 3, 8))):
        k = r.randrange(11)
        if not toks or not b: break
        s, e = r.choice(toks); s = min(s, len(b)); e = min(e, len(b))
        if k == 0: b[s:e] = b''
        elif k == 1: b[s:e] = r.choice(TOKENS).encode()
        elif k == 2: b[s:s] = (r.choice(TOKENS) + r.choice((' ', ''))).encode()
        elif k == 3: s2, e2 = r.choice(toks); b[s:e] = b[s2:e2]
        elif k == 4: b[s:e] = bytes(b[s:e]) * 2
        elif k == 5: i = r.randrange(len(b)); b[i] = r.choice((0, 10, 13, 34, 92, 127, 128, 255, r.randrange(256)))
        elif k == 6: del b[r.randrange(len(b)):]
        elif k == 7:
            o = r.choice(others); i = r.randrange(len(o)); j = min(len(o), i + r.randint(1, 200)); b[s:s] = o[i:j]
        elif k == 8: s2, e2 = r.choice(toks); s2, e2 = min(s, s2), max(e, e2); b[s2:s2] = b[s2:e2]
        elif k == 9: s2, e2 = r.choice(toks); s2, e2 = min(s, s2), max(e, e2); del b[s2:e2]
        else: b[s:e] = r.choice((b'a' * r.choice((1000, 1023, 1024, 1025, 5000)), b'9' * r.choice((18, 19, 20, 400, 1024)), b'"' + b'x' * r.choice((1022, 1023, 1024, 4000)) + b'"'))
    return bytes(b)

def fuzzers(ctx, d):
    """compile the libFuzzer targets from the tree's library sources"""
    src = ctx.san.dir
    def members(lib):
        r = subprocess.run(['ar', 't', os.path.join(src, lib)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        return [x[:-2] + '.c' for x in r.stdout.decode().split() if x.endswith('.o')]
    cs = sorted(set(members('libort.a') + members('libort-lang-xliff.a')))
    if not cs: return None
    fl = ['clang', '-g', '-O1', '-w', '-fno-omit-frame-pointer', '-fsanitize=fuzzer-no-link,address,undefined', '-fno-sanitize-recover=undefined', '-I' + src, '-c']
    def cc(x):
        o = os.path.join(d, os.path.basename(x)[:-2] + ('' if not os.path.isabs(x) else '-h') + '.o')
        r = subprocess.run(fl + ['-o', o, x], cwd=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return o if r.returncode == 0 else None
    objs = tools_.pmap(cc, cs)
    if None in objs: return None
    out = []
    for name, defs in (('fuzz-ort', []), ('fuzz-xliff', ['-DFUZZ_XLIFF'])):
        o = os.path.join(d, name + '-m.o')
        r = subprocess.run(fl + defs + ['-o', o, os.path.join(os.path.dirname(SRC), 'fuzz_ort.c')], cwd=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: ctx.notes.append(r.stdout.decode('utf-8', 'replace')[-300:]); return None
        r = subprocess.run(['clang++', '-fsanitize=fuzzer,address,undefined', '-o', os.path.join(d, name), o] + objs + ['-lexpat', '-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: ctx.notes.append(r.stdout.decode('utf-8', 'replace')[-300:]); return None
        out.append(os.path.join(d, name))
    return out

def p19(ctx):
    ctx.rules.append('mangled configurations and XLIFF files given to tools built with address and undefined-behaviour sanitizers: no crash, no endless loop, messages within the file')
    ctx.rules.append('coverage-guided fuzzing of ort_parse_file, ort_parse_close, ort_write_file, ort_lang_xliff_join and _update with the same oracles')
    d = os.path.join(ctx.scratch.dir, 'p19'); os.makedirs(d, exist_ok=True)
    base = []
    for i in range(120):
        g = Gen(ctx.seed * 7919 + i, labels=.3, evil=.1, maxstructs=3, maxfields=5)
        base.append(to_ort(g.config()).encode('utf-8', 'surrogateescape'))
    def judge(r, what, data, show, suffix):
        fs = {'input' + suffix: data.decode('utf-8', 'surrogateescape'), 'stderr': r.etext[-6000:]}
        if r.crashed or r.rc not in (0, 1):
            m = re.search(r'(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*|Assertion[^\n]*)', r.etext)
            ctx.problem('%s: %s' % (show, 'does not end' if r.timeout else 'exit %d %s' % (r.rc, m.group(1) if m else '')), fs, show); return
        n = data.count(b'\n') + 2
        for nm, l in re.findall(r'^([^:\n]*):(\d+):\d+: (?:error|warning|fatal)', r.etext, re.M):
            # messages of ort-xliff also name the configuration, which has its own lines
            if suffix == '.xliff' and not nm.endswith('.xliff'): continue
            if not 1 <= int(l) <= n: ctx.problem('%s: message for line %s of %d' % (show, l, n), fs, show); return
        if r.rc and not r.etext.strip(): ctx.problem('%s: fails without a message' % show, fs, show)
    xb = []
    lab = None
    for i in range(40):
        src = to_ort(Gen(ctx.seed * 104729 + i, labels=.9, evil=.1, maxstructs=1).config())
        f = ctx.scratch.file(src)
        r = ctx.san.run('ort-xliff', [f])
        if r.rc == 0 and len(r.out) > 400:
            x = re.sub(rb'(<source>)(.*?)(</source>)', lambda m: m.group(0) + b'<target>' + m.group(2) + b'</target>', r.out, flags=re.S)
            if b'target-language' not in x: x = x.replace(b' tool=', b' target-language="xx" tool=', 1)
            xb.append((f, x))
            if len(xb) >= 6: break
    def one(i):
        r = random.Random(i)
        if xb and r.random() < .25:
            f, x = r.choice(xb); b = mangled(r, x, [y for _, y in xb]); p = ctx.scratch.file(b, '.xliff')
            op = r.choice(('-j', '-u'))
            ctx.case((op, b), None)
            judge(ctx.san.run('ort-xliff', [op, f, p]), 'xliff', b, 'ort-xliff %s config input.xliff' % op, '.xliff'); os.unlink(p)
        else:
            b = mangled(r, r.choice(base), base); t = 'ort'
            ctx.case(b, None)
            judge(ctx.san.run(t, stdin=b), 'config', b, t + ' input.ort', '.ort')
    ctx.each(6000, one, 22)
    if ctx.problems: return
    try: fz = fuzzers(ctx, d)
    except Exception as e: fz = None; ctx.notes.append('fuzz targets: %r' % e)
    if not fz: ctx.notes.append('fuzz targets not built: coverage-guided part skipped'); return
    secs = int(45 * max(1, ctx.scale)) if ctx.quick() else 600
    dic = os.path.join(d, 'dict')
    open(dic, 'w').write('\n'.join('"%s"' % t.replace('\\', '\\\\').replace('"', '\\"') for t in sorted(set(TOKENS + ['target', 'trans-unit', 'source', 'xliff', '<target>', '</target>', '&lt;', '&#0;']))) + '\n')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1')
    ps = []
    for k in range(8):
        w = os.path.join(d, 'w%d' % k); c = os.path.join(w, 'corpus'); os.makedirs(c)
        isx = k >= 6 and bool(xb)
        for j, b in enumerate([x for _, x in xb] if isx else base[k::6][:30]): open(os.path.join(c, 's%d' % j), 'wb').write(b)
        e = dict(env)
        if isx: e['FUZZ_CONFIG'] = xb[0][0]
        cmd = [fz[1 if isx else 0], '-seed=%d' % (ctx.seed * 100 + k + 1), '-max_total_time=%d' % secs, '-max_len=6000', '-timeout=20', '-rss_limit_mb=2500', '-dict=' + dic, '-artifact_prefix=' + w + '/', '-print_final_stats=1', c]
        lf = open(os.path.join(w, 'log'), 'wb')
        ps.append((w, isx, subprocess.Popen(cmd, stdout=lf, stderr=lf, env=e, cwd=w)))
    for w, isx, p in ps:
        try: p.wait(secs + 60)
        except subprocess.TimeoutExpired: p.kill(); p.wait()
        log = open(os.path.join(w, 'log'), 'rb').read().decode('utf-8', 'replace')
        m = re.search(r'stat::number_of_executed_units:\s*(\d+)', log)
        if m:
            with ctx.lock: ctx.evals += int(m.group(1))
            ctx.case(('fuzz', w, m.group(1)), None)
        for f in os.listdir(w):
            if not f.startswith(('crash-', 'timeout-', 'oom-')): continue
            b = open(os.path.join(w, f), 'rb').read()
            # confirm on its own
            e = dict(env)
            if isx: e['FUZZ_CONFIG'] = xb[0][0]
            r2 = subprocess.run([fz[1 if isx else 0], '-timeout=20', '-rss_limit_mb=2500', os.path.join(w, f)], env=e, cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r2.returncode == 0: continue
            t = r2.stdout.decode('utf-8', 'replace')
            m = re.search(r'(ERROR: (?:Address|Undefined)[^\n]*|runtime error[^\n]*|Assertion[^\n]*|POSITION[^\n]*|REFUSED[^\n]*|ERROR: libFuzzer[^\n]*)', t)
            ctx.problem('%s: %s' % ('ort-xliff' if isx else 'ort', m.group(1) if m else f), {'input' + ('.xliff' if isx else '.ort'): b.decode('utf-8', 'surrogateescape'), 'log': t[-5000:]}, 'ort input.ort')
