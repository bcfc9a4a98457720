"""Oracles over the configuration-level tools: writing, comparing, auditing."""
import json, os, re, copy, random
from model import *
from expect import *
from mutate import Mut
import differ
from tools import *

def gen(i, **o):
    w = {}; c = Gen(i, **o).config()
    return c, to_ort(c, w), w

def readjson(ctx, what, text, src):
    try: return json.loads(text, object_pairs_hook=nodup)
    except Exception as e:
        ctx.problem('%s is not valid JSON: %s' % (what, e), {'config.ort': src, 'output': text})
        return None

def run(ctx, tool, src, *args, ok=True, t=None):
    r = (t or ctx.t).run(tool, list(args), stdin=src)
    if r.crashed: ctx.problem('%s crashes (%d)' % (tool, r.rc), {'config.ort': src, 'stderr': r.etext[-2000:]}, '%s %s < config.ort' % (tool, ' '.join(args))); return None
    if ok and r.rc: ctx.problem('%s fails on a valid configuration: %s' % (tool, r.etext[-300:]), {'config.ort': src}, '%s %s < config.ort' % (tool, ' '.join(args))); return None
    return r

def pair(i, k, only=None, **o):
    """two models: the second one is the first with up to k edits"""
    c = Gen(i, **o).config()
    m = Mut(i * 7 + 1, c)
    d = m.run(k, only)
    return c, d, m.done

# ------------------------------------------------------------------- P10
def p10(ctx):
    def one(i):
        c, src, w = gen(i, evil=0.3 if i % 2 else 0.0)
        r = run(ctx, 'ort-json', src)
        if r is None: return
        j = readjson(ctx, 'ort-json output', r.text, src)
        if j is None: return
        try: a = canon(j, True)
        except (KeyError, TypeError, AttributeError) as e:
            return ctx.problem('ort-json output lacks %r' % e, {'config.ort': src, 'output': r.text}, 'ort-json config.ort')
        d = diff(expect(c, w), a)
        ctx.case(src, src)
        if d: ctx.problem('ort-json: ' + '; '.join(d[:4]), {'config.ort': src, 'output': r.text}, 'ort-json config.ort')
    ctx.each(3000, one, 50)

# ------------------------------------------------------------------- P20
def ws(x):
    """labels: ort's form folds white space"""
    if isinstance(x, dict):
        return dict((k, dict((a, re.sub(r'\s+', ' ', b) if isinstance(b, str) else b) for a, b in v.items()) if k.startswith('labels') and isinstance(v, dict) else ws(v)) for k, v in x.items())
    if isinstance(x, list): return [ws(v) for v in x]
    return x

def p20(ctx):
    def one(i):
        c, src, w = gen(i, evil=0.3 if i % 2 else 0.0)
        r = run(ctx, 'ort', src)
        if r is None: return
        r2 = ctx.t.run('ort', stdin=r.out)
        fs = {'config.ort': src, 'canonical.ort': r.text}
        if r2.rc: return ctx.problem('ort refuses its own canonical form: ' + r2.etext[-300:], fs, 'ort config.ort | ort')
        ctx.case(src, src)
        if r2.out != r.out: return ctx.problem('the canonical form changes when printed again', dict(fs, again=r2.text), 'ort config.ort | ort')
        j = ctx.t.run('ort-json', stdin=r.out)
        if j.rc: return ctx.problem('ort-json refuses the canonical form', fs)
        b = readjson(ctx, 'ort-json output', j.text, src)
        if b is None: return
        try: d = diff(ws(expect(c)), ws(canon(b)))
        except (KeyError, TypeError, AttributeError) as e: d = ['missing %r' % e]
        if d:
            # is it the canonical form, or what ort-json makes of the original?
            j0 = ctx.t.run('ort-json', stdin=src)
            try:
                d = diff(ws(canon(json.loads(j0.text))), ws(canon(json.loads(j.text))))
            except Exception: pass
        if d: return ctx.problem('the canonical form means another configuration: ' + '; '.join(d[:4]), fs, 'ort config.ort')
    ctx.each(3000, one, 50)

# ------------------------------------------------------------------- P03
def p03(ctx):
    def one(i):
        k = (0, 1, 1, 1, 2, 3, 6)[i % 7]
        if k == 0:
            only = ['m_roleops_order', 'm_item_order', 'm_st_order', 'm_op_order']
            c, d, done = pair(i, 3, only, maxstructs=3, maxfields=5)
        else: c, d, done = pair(i, k, None, maxstructs=3, maxfields=5)
        wa, wb = {}, {}
        if i % 3 == 0: c, d = d, c
        sa, sb = to_ort(c, wa), to_ort(d, wb)
        s = ctx.scratch
        fa, fb = s.file(sa), s.file(sb)
        try:
            r = ctx.t.run('ort-diff', [fa, fb])
            if r.rc == 2 or r.crashed:
                if r.crashed: ctx.problem('ort-diff crashes (%d)' % r.rc, {'a.ort': sa, 'b.ort': sb, 'stderr': r.etext[-1000:]}, 'ort-diff a.ort b.ort')
                elif all(ctx.t.run('ort', [f]).rc == 0 for f in (fa, fb)): ctx.problem('ort-diff fails on two accepted configurations: ' + r.etext[-300:], {'a.ort': sa, 'b.ort': sb}, 'ort-diff a.ort b.ort')
                else: ctx.trivial()
                return
            want = differ.differences(c, wa, d, wb)
            got, same, odd = differ.parse(r.text, fa, fb)
            ctx.case((sa, sb), '%s: %s' % (done, r.text[:600]))
            fs = {'a.ort': sa, 'b.ort': sb, 'output': r.text}
            if want != got:
                return ctx.problem('ort-diff reports %s; expected but missing %s, not expected %s' % (done, sorted(want - got, key=str)[:4], sorted(got - want, key=str)[:4]), fs, 'ort-diff a.ort b.ort')
            if odd: return ctx.problem('ort-diff prints wrong lines: %s' % odd[:3], fs, 'ort-diff a.ort b.ort')
            if (r.rc != 0) != bool(want) or r.rc not in (0, 1): return ctx.problem('ort-diff exits %d with %d differences' % (r.rc, len(want)), fs, 'ort-diff a.ort b.ort')
        finally: os.unlink(fa); os.unlink(fb)
    ctx.each(5000, one, 60)

# ------------------------------------------------------------------- P04
UT = {'update': 'update', 'delete': 'delete'}
ST = {'search': 'get', 'list': 'list', 'iterate': 'iterate', 'count': 'count'}
def cname(st, kind, u=None):
    """name of the generated C function of an operation"""
    if kind == 'insert': return 'db_%s_insert' % st.name
    n = 'db_%s_%s' % (st.name, ST.get(kind, kind))
    if u.name: return n + '_' + u.name
    if kind in ('update', 'delete'):
        for x, o in u.m: n += '_%s_%s' % (x, 'cat' if o == 'concat' else o)
        c = u.c
    else: c = [('_'.join(p), o) for p, f, o in u.terms]
    if c: n += '_by' + ''.join('_%s_%s' % x for x in c)
    return n

def audit_expect(c, w, role):
    """rows (type, component, position), -v rows, reachable structures, fields"""
    rows = set(); vrows = set(); fns = {}; reach = {}; fields = {}; per = {}; trows = {}
    by = dict((x.name, x) for x in c.structs)
    gr = dict((st.name, granted(st)) for st in c.structs)
    def fexp(st, f): return not f.noexport and not allowed(c, role, gr[st.name][1].get(f.name, ()))
    for st in c.structs:
        ops, fld, stm = gr[st.name]
        whole = not allowed(c, role, stm.get(('noexport', None), ()))
        P = per[st.name] = dict((k, []) for k in ('insert', 'update', 'delete', 'count', 'get', 'list', 'iterate'))
        def fn(kind, u, t):
            n = cname(st, kind, u); P[t].append(n); fns[n] = (None if u is None or u.doc is None else unq(u.doc), t)
        if st.ins and allowed(c, role, ops.get(('insert', None), ())):
            rows.add(('insert', st.name, w['insert', st.name])); fn('insert', None, 'insert')
        for q, k in ((st.updates, 'update'), (st.deletes, 'delete')):
            for i, u in enumerate(q):
                if allowed(c, role, ops.get((k + 's', i), ())):
                    rows.add((k, '%s:%s' % (st.name, u.name or '-'), w[k, st.name, i])); fn(k, u, k)
        for i, u in enumerate(st.searches):
            if not allowed(c, role, ops.get(('searches', i), ())): continue
            rows.add((u.type, '%s:%s' % (st.name, u.name or '-'), w['search', st.name, i])); fn(u.type, u, ST[u.type])
            dst = st if not u.distinct or u.distinct == ['.'] else by[chain(c, st, u.distinct)[-1][1].tgt]
            def follow(x, exp, path):
                reach[x.name] = reach.get(x.name, False) or exp
                vrows.add(('readwrite' if exp else 'read', '%s:%s:%s:%s' % (st.name if False else x.name, u.type, u.name or '-', '.'.join(path) or '-'), w['search', st.name, i]))
                trows.setdefault(x.name, set()).add((cname(st, u.type, u), exp, '.'.join(path)))
                for f in x.fields:
                    fields['%s.%s' % (x.name, f.name)] = (fexp(x, f), f)
                    if f.type == 'struct': follow(by[f.tgt], exp and fexp(x, f), path + [f.name])
            follow(dst, whole, [])
    return rows, vrows, reach, fields, fns, per, trows

def p04(ctx):
    def one(i):
        c, src, w = gen(i, roles=1.0, ops=1.5, maxfields=5)
        if not c.hasroles: return ctx.trivial()
        r0 = random.Random(i)
        f = ctx.scratch.file(src)
        try:
            for role in r0.sample([x.name for x in c.roles], min(len(c.roles), 3)) + (['default'] if i % 5 == 0 else []):
                rows, vrows, reach, fields, fns, per, trows = audit_expect(c, w, role)
                fs = {'config.ort': src}
                for v in (0, 1):
                    r = ctx.t.run('ort-audit', (['-v'] if v else []) + ['-r', role, f])
                    cmd = 'ort-audit %s-r %s config.ort' % ('-v ' if v else '', role)
                    if r.crashed or r.rc: return ctx.problem('%s fails (%d): %s' % (cmd, r.rc, r.etext[-300:]), fs, cmd)
                    got = set(); n = 0
                    for l in r.text.split('\n'):
                        if not l.strip(): continue
                        p = l.split(); n += 1
                        x = p[-1].rsplit(':', 2)
                        got.add((p[0], p[1], (int(x[1]), int(x[2]))))
                        if x[0] != f: return ctx.problem('%s names file %s' % (cmd, x[0]), dict(fs, output=r.text), cmd)
                    want = set(rows) | (vrows if v else set(('readwrite' if e else 'read', n, w['struct', n]) for n, e in reach.items()))
                    ctx.case((src, role, v), r.text)
                    if got != want: return ctx.problem('%s: missing %s, not expected %s' % (cmd, sorted(want - got)[:4], sorted(got - want)[:4]), dict(fs, output=r.text), cmd)
                cmd = 'ort-audit-json -r %s config.ort' % role
                r = ctx.t.run('ort-audit-json', ['-r', role, f])
                if r.crashed or r.rc: return ctx.problem('%s fails (%d): %s' % (cmd, r.rc, r.etext[-300:]), fs, cmd)
                j = readjson(ctx, cmd, r.text, src)
                if j is None: return
                fs = dict(fs, output=r.text)
                try:
                    if j['role'] != role: return ctx.problem('%s: role %r' % (cmd, j['role']), fs, cmd)
                    g = dict((k, (v['doc'], v['type'])) for k, v in j['functions'].items())
                    if g != fns: return ctx.problem('%s: functions differ: expected %s, got %s' % (cmd, sorted(set(fns.items()) - set(g.items())), sorted(set(g.items()) - set(fns.items()))), fs, cmd)
                    acc = dict((x['name'], x['access']) for x in j['access'])
                    if sorted(acc) != sorted(per): return ctx.problem('%s: structures %s' % (cmd, sorted(acc)), fs, cmd)
                    for n, P in per.items():
                        a = acc[n]
                        for k, v in P.items():
                            wv = (v[0] if v else None) if k == 'insert' else sorted(v)
                            gv = a[k] if k == 'insert' else sorted(a[k])
                            if wv != gv: return ctx.problem('%s: %s of %s are %s, expected %s' % (cmd, k, n, gv, wv), fs, cmd)
                        af = set((x['function'], x['exporting'], x['path']) for x in a.get('accessfrom', []))
                        if af != trows.get(n, set()): return ctx.problem('%s: access paths of %s are %s, expected %s' % (cmd, n, sorted(af), sorted(trows.get(n, set()))), fs, cmd)
                        if a.get('exportable', None) != reach.get(n, None): return ctx.problem('%s: %s exportable: %s, expected %s' % (cmd, n, a.get('exportable'), reach.get(n)), fs, cmd)
                    gf = dict((k, v['export']) for k, v in j['fields'].items())
                    wf = dict((k, v[0]) for k, v in fields.items())
                    for k, v in fields.items():
                        if v[1].type == 'password' and k in gf: gf[k] = wf[k]
                    if gf != wf: return ctx.problem('%s: exported fields differ: expected %s, got %s' % (cmd, sorted(set(wf.items()) - set(gf.items())), sorted(set(gf.items()) - set(wf.items()))), fs, cmd)
                except (KeyError, TypeError) as e: return ctx.problem('%s lacks %r' % (cmd, e), fs, cmd)
        finally: os.unlink(f)
    ctx.each(1500, one, 60)

# ------------------------------------------------------------------- P14
def p14(ctx):
    def roles(c, src, what):
        r = run(ctx, 'ort-json', src)
        if r is None: return None
        j = readjson(ctx, 'ort-json output', r.text, src)
        if j is None: return None
        out = {}
        try:
            for n, s in j['config']['sq'].items():
                if s['insert']: out[n, 'insert', None] = sorted(s['insert']['rolemap'])
                for f in s['fq'].values(): out[n, 'field', f['name']] = sorted(f['rolemap'])
                for q in ('uq', 'dq', 'sq'):
                    for u in list(s[q]['named'].values()): out[n, q, u['type'], u['name']] = sorted(u['rolemap'])
                    for k, u in enumerate(s[q]['anon']): out[n, q, 'anon', k] = sorted(u['rolemap'])
        except (KeyError, TypeError) as e: ctx.problem('ort-json lacks %r' % e, {'config.ort': src}); return None
        return out
    def want(c):
        out = {}
        for st in c.structs:
            ops, fld, stm = granted(st)
            if st.ins: out[st.name, 'insert', None] = sorted(ops.get(('insert', None), ()))
            for f in st.fields: out[st.name, 'field', f.name] = sorted(fld.get(f.name, ()))
            for q, us, mk in (('uq', st.updates, 'updates'), ('dq', st.deletes, 'deletes'), ('sq', st.searches, 'searches')):
                k = 0
                for i, u in enumerate(us):
                    v = sorted(ops.get((mk, i), ()))
                    if u.name: out[st.name, q, u.kind or u.type, u.name] = v
                    else: out[st.name, q, 'anon', k] = v; k += 1
        return out
    def one(i):
        c, src, w = gen(i, roles=1.0, ops=1.3, docs=0.1)
        g = roles(c, src, 'x')
        if g is None: return
        ctx.case(src, src)
        x = want(c)
        if g != x:
            d = sorted(((k, x.get(k), g.get(k)) for k in set(x) | set(g) if x.get(k) != g.get(k)), key=str)
            return ctx.problem('roles differ (what, expected, found): %s' % d[:5], {'config.ort': src}, 'ort-json config.ort')
        r = random.Random(i)
        for st in c.structs:
            r.shuffle(st.roleops); st.roleops = [(r.sample(a, len(a)), r.sample(b, len(b))) for a, b in st.roleops]
        # the roles statements before what they name
        s2 = to_ort(c)
        out = []
        for blk in re.split(r'(?m)^(?=struct )', s2):
            if blk.startswith('struct '):
                ls = blk.split('\n'); ro = [l for l in ls if l.startswith('\troles ')]
                if r.random() < .5 and all(x.count('"') % 2 == 0 for x in ls): ls = [ls[0]] + ro + [l for l in ls[1:] if not l.startswith('\troles ')]
                blk = '\n'.join(ls)
            out.append(blk)
        s2 = ''.join(out)
        h = roles(c, s2, 'y')
        if h is not None and h != g:
            d = sorted(((k, g.get(k), h.get(k)) for k in set(h) | set(g) if h.get(k) != g.get(k)), key=str)
            return ctx.problem('roles depend on the order of statements: %s' % d[:5], {'a.ort': src, 'b.ort': s2}, 'ort-json')
    ctx.each(3000, one, 60)
