"""Runs the C of ort-c-header and ort-c-source on stand-ins of its libraries:
a driver is written per configuration, one function per call."""
import json, os, subprocess
from expect import *
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(HERE, 'stubs', 'c')
FL = ['-w', '-O0', '-std=gnu11', '-I' + SRC]

def setup(dir):
    os.makedirs(dir, exist_ok=True)
    o = os.path.join(dir, 'rt.o')
    r = subprocess.run(['gcc'] + FL + ['-c', os.path.join(SRC, 'rt.c'), '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode == 0

INTS = ('int', 'bit', 'bits', 'date', 'epoch')
def cs(v):
    return '"' + ''.join(chr(b) if 32 <= b < 127 and chr(b) not in '"\\?' else '\\%03o' % b for b in (v if isinstance(v, bytes) else v.encode('utf-8', 'surrogateescape'))) + '"'
def ci(v): return '(-9223372036854775807LL-1)' if v == -2**63 else '%dLL' % v

class Drv(object):
    def __init__(s, c, safe):
        s.c, s.safe = c, safe; s.by = dict((x.name, x) for x in c.structs); s.out = []; s.n = 0
    def root(s, st, f):
        while f.ref: st = s.by[f.ref[0]]; f = [x for x in st.fields if x.name == f.ref[1]][0]
        return st, f
    def arg(s, st, f, nullable, v):
        """one argument of field f, whose type is that of the field it refers to"""
        rs, rf = s.root(st, f)
        if f.type == 'blob':
            if nullable: return '0, NULL' if v is None else '%d, (const void *[]){%s}' % (len(v), cs(bytes(v)))
            return '%d, %s' % (len(v), cs(bytes(v)))
        if nullable and v is None: return 'NULL'
        if f.type in INTS:
            x = 'ORT_%s_%s(%s)' % (rs.name, rf.name, ci(v)) if s.safe else '(%s){%s}' % ('time_t' if f.type in ('date', 'epoch') else 'int64_t', ci(v))
            return '&' + x if nullable else x
        if f.type == 'enum': return ('&(enum %s){%d}' if nullable else '(enum %s)%d') % (f.of, v)
        if f.type == 'real': return ('&(double){%r}' if nullable else '%r') % float(v)
        return ('(const char *[]){%s}' if nullable else '%s') % cs(v)
    def raw(s, st):
        """print the object as it is in memory"""
        o = ['static void raw_%s(const struct %s *p)\n{\n\tP("[\\"o\\",{");' % (st.name, st.name)]
        for i, f in enumerate(st.fields):
            o.append('\tP("%s\\"%s\\":");' % (',' if i else '', f.name))
            null = f.null
            if f.type == 'struct':
                src = fieldof(st, f.src); null = src.null
                w = 'raw_%s(&p->%s);' % (f.tgt, f.name)
            elif f.type in INTS: w = ('PI(ORT_GET_%s_%s(p));' % (st.name, f.name)) if s.safe else 'PI(p->%s);' % f.name
            elif f.type == 'enum': w = 'PI(p->%s);' % f.name
            elif f.type == 'real': w = 'PR(p->%s);' % f.name
            elif f.type == 'blob': w = 'PB(p->%s, p->%s_sz);' % (f.name, f.name)
            else: w = 'PT(p->%s);' % f.name
            o.append('\tif (p->has_%s) %s else P("null");' % (f.name, w) if null else '\t' + w)
        o.append('\tP("}]");\n}')
        o.append('static void obj_%s(const struct %s *p)\n{\n\tstruct kjsonreq r; memset(&r, 0, sizeof(r)); r.first = 1;\n\tP("%%s{\\"raw\\":", SEP++ ? "," : ""); raw_%s(p);\n\tjson_%s_data(&r, p);\n\tP(",\\"exp\\":[\\"o\\",[%%s]]}", r.buf ? r.buf : "");\n}' % ((st.name,) * 4))
        o.append('static void cb_%s(const struct %s *p, void *arg) { if (arg != (void *)&SEP) P("0"); obj_%s(p); }' % ((st.name,) * 3))
        return '\n'.join(o)
    def begin(s, role):
        s.out.append('static void call_%d(void)\n{\n\tstruct ort *ctx;\n\tif ((ctx = db_open(DBFILE)) == NULL) exit(3);' % s.n); s.n += 1
        if role != 'default': s.out.append('\tdb_role(ctx, ROLE_%s);' % role)
    def call(s, st, kind, u, role, args, L, fn, D):
        s.begin(role)
        al = []
        for (f, nl), v, own in zip(L, args, s.owners(st, kind, u, L)): al.append(s.arg(own, f, nl, v))
        a = ''.join(', ' + x for x in al)
        w = s.out.append
        if kind == 'insert': w('\tP("{\\"v\\":"); PI(%s(ctx%s));' % (fn, a)); w(s.dump())
        elif kind == 'update': w('\tP("{\\"v\\":[\\"t\\",%%s]", %s(ctx%s) ? "true" : "false");' % (fn, a)); w(s.dump())
        elif kind == 'delete': w('\tP("{\\"v\\":null"); %s(ctx%s);' % (fn, a)); w(s.dump())
        elif kind == 'count': w('\tP("{\\"v\\":"); PI(%s(ctx%s));' % (fn, a))
        elif kind == 'search': w('\tP("{\\"l\\":["); { struct %s *p = %s(ctx%s); if (p != NULL) { obj_%s(p); db_%s_free(p); } } P("]");' % (D, fn, a, D, D))
        elif kind == 'list': w('\tP("{\\"l\\":["); { struct %s *p; struct %s_q *q = %s(ctx%s); TAILQ_FOREACH(p, q, _entries) obj_%s(p); db_%s_freeq(q); } P("]");' % (D, D, fn, a, D, D))
        elif kind == 'iterate': w('\tP("{\\"l\\":["); %s(ctx, cb_%s, (void *)&SEP%s); P("]");' % (fn, D, a))
        w('\tdb_close(ctx); P("}");\n}')
    def owners(s, st, kind, u, L):
        if kind in ('insert', 'update', 'delete'): return [st] * len(L)
        return [chain(s.c, st, p)[-1][0] for p, f, o in u.terms if o not in ('isnull', 'notnull')]
    def dump(s): return '\tP(",\\"dump\\":"); dump(NTAB, NAMES, COLS);'
    def roles(s, path):
        s.begin('default')
        for n in path: s.out.append('\tdb_role(ctx, ROLE_%s);' % n)
        s.out.append('\tP("{\\"role\\":\\"%s\\"}", RN(db_role_current(ctx)));\n}')
    def valid(s, st, f, x):
        s.out.append('static void call_%d(void) { valid("%s-%s", %s, %s); }' % (s.n, st.name, f.name, 'NULL' if x is None else cs(x), {'real': "'r'", 'text': "'s'", 'password': "'s'", 'email': "'s'"}.get(f.type, "'i'"))); s.n += 1
    def text(s, hdr, db, tables, valids, roles):
        o = ['#include <sys/queue.h>\n#include <stdint.h>\n#include <stdlib.h>\n#include <string.h>\n#include <time.h>\n#include "sqlbox.h"\n#include "kcgi.h"\n#include "kcgijson.h"\n#include "%s"\n#include "rt.h"\n#define DBFILE %s\nstatic int SEP;' % (hdr, cs(db or ''))]
        o.append('static const char *NAMES[] = { %s NULL };\nstatic const char *COLS[] = { %s NULL };\n#define NTAB %d' % (''.join(cs(n) + ', ' for n in tables), ''.join(cs('SELECT %s FROM "%s"' % (','.join(c), n)) + ', ' for n, c in tables.items()), len(tables)))
        if roles: o.append('static const char *RN(int r) { switch (r) { %s default: return "?"; } }' % ' '.join('case ROLE_%s: return "%s";' % (r, r) for r in roles))
        if valids: o.append('''static void valid(const char *k, const char *v, int t)
{ size_t i; struct kpair p; char *c;
  for (i = 0; i < VALID__MAX; i++) if (valid_keys[i].name && !strcmp(valid_keys[i].name, k)) {
    if (!valid_keys[i].valid) { P("{\\"none\\":true}"); return; }
    c = strdup(v); memset(&p, 0, sizeof(p)); p.key = (char *)k; p.val = c; p.valsz = strlen(c);
    if (!valid_keys[i].valid(&p)) { P("{\\"v\\":null}"); return; }
    P("{\\"v\\":"); if (t == 'i') PI(p.parsed.i); else if (t == 'r') PR(p.parsed.d); else PT(v); P("}"); return; }
  P("{\\"none\\":true}"); }''')
        done = set()
        def fwd(st):
            o.append('static void raw_%s(const struct %s *);' % (st.name, st.name))
        if tables:
            for st in s.c.structs: fwd(st)
            for st in s.c.structs: o.append(s.raw(st))
        o += s.out
        o.append('static void (*CALLS[])(void) = { %s NULL };\nint main(void) { return each_call(%d, CALLS); }' % (''.join('call_%d, ' % i for i in range(s.n)), s.n))
        return '\n'.join(o) + '\n'

def cc(dir, name, srcs, out, extra=()):
    r = subprocess.run(['gcc'] + FL + ['-I' + dir] + list(extra) + [os.path.join(dir, x) for x in srcs] + ['-o', os.path.join(dir, out)] + ([] if '-c' in extra else [os.path.join(dir, 'rt.o'), '-lsqlite3', '-lresolv', '-lm']), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return None if r.returncode == 0 else r.stdout.decode('utf-8', 'replace')[:1500]

def run(dir, name, timeout=120):
    try: r = subprocess.run([os.path.join(dir, name)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired: return None, 'timeout'
    if r.returncode: return None, 'driver rc %d' % r.returncode
    return [json.loads(l) for l in r.stdout.decode('utf-8', 'surrogateescape').splitlines()], None
