"""Oracles over the generated interfaces: the generated code is run against a
real database, on stand-ins of the libraries that are not installed, and
compared with SQL of our own."""
import json, os, random, shutil, threading
from o_text import *
import e2e, noderun, crun

SAFE = [None]
def transitions(c, rnd, n):
    """random sequences of role changes, and whether each is accepted"""
    names = ['default', 'none', 'all'] + [x.name for x in c.roles]
    out = []
    for _ in range(n):
        path = []; cur = 'default'; ok = True
        for _ in range(rnd.randint(1, 4)):
            x = rnd.choice(names) if rnd.random() < .5 else rnd.choice([y for y in names if y != 'all' and (cur == 'default' or y in ancestors(c, cur) or y == 'none')] or ['none'])
            path.append(x)
            good = x == cur or (x == 'none') or (cur == 'default' and x != 'all') or (cur not in ('default', 'none') and x != 'all' and x in ancestors(c, cur))
            if cur == 'none' and x != 'none': good = False
            if x == 'all': good = False
            if not good: ok = False; break
            cur = x
        out.append((path, ok, cur))
    return out

# values of validators: (text of the input, value the limits apply to or None if not of the type)
def limok(f, size):
    for op, v in f.limits:
        x = float(v) if f.type == 'real' else int(v)
        if not {'ge': size >= x, 'gt': size > x, 'le': size <= x, 'lt': size < x, 'eq': size == x}[op]: return False
    return True

def vcases(c, f, rnd):
    """[(text, canonical value or None)]"""
    out = []
    en = dict((e.name, [i.value for i in e['items']]) for e in c.enums)
    t = f.type
    if t in ('int', 'epoch', 'bit'):
        xs = [0, 1, -1, 5]
        for op, v in f.limits: xs += [int(v) - 1, int(v), int(v) + 1]
        lo, hi = (0, 63) if t == 'bit' else (-2**63, 2**63 - 1)
        xs += [lo, hi, lo - 1]
        if t != 'bit': xs += [hi + 1]
        else: xs = [x for x in xs if x != 64] + [65]
        for x in dict.fromkeys(xs):
            if t == 'bit' and x == 64: continue
            out.append((str(x), 'i:%d' % x if lo <= x <= hi and limok(f, x) else None))
        out += [('abc', None), ('1x', None), ('', None)]
    elif t == 'bits':
        for x in (0, 1, -1, 2**63 - 1, -2**63, 2**64): out.append((str(x), None if x >= 2**64 else 'i:%d' % x))
        out += [('zz', None)]
    elif t == 'enum':
        vs = en[f.of]
        for x in dict.fromkeys(vs + [v + 1 for v in vs] + [v - 1 for v in vs] + [0, 999]): out.append((str(x), 'i:%d' % x if x in vs else None))
        out += [('abc', None), ('', None)]
    elif t == 'real':
        xs = ['0', '1', '-1', '0.5', '-2.25']
        for op, v in f.limits:
            xs += [v, '%r' % (float(v) - .25), '%r' % (float(v) + .25), '%r' % (float(v) + 2.0 ** -20)]
        for x in dict.fromkeys(xs):
            if 'e' in x: continue
            out.append((x, 'r:%r' % float(x) if limok(f, float(x)) else None))
        out += [('abc', None)]
    elif t == 'date':
        import calendar, datetime
        ds = [datetime.date(1970, 1, 1), datetime.date(2001, 9, 9), datetime.date(2024, 2, 29), datetime.date(1969, 7, 20)]
        for op, v in f.limits:
            n = int(v) // 86400
            for k in (n - 1, n, n + 1):
                if -25000 < k < 90000: ds.append(datetime.date(1970, 1, 1) + datetime.timedelta(k))
        for d in dict.fromkeys(ds):
            x = calendar.timegm(d.timetuple())
            out.append((d.strftime('%Y-%m-%d'), 'i:%d' % x if limok(f, x) else None))
        out += [('2023-02-29', None), ('2023-13-01', None), ('zap', None)]
    elif t in ('text', 'password'):
        ns = [0, 1, 3]
        for op, v in f.limits: ns += [int(v) - 1, int(v), int(v) + 1]
        for n in dict.fromkeys(ns):
            if n < 0: continue
            for s in ('a' * n, 'é' * (n // 2) + 'a' * (n % 2)):
                out.append((s, 's:' + s if limok(f, n) else None))
        out = list(dict.fromkeys(out))
    elif t == 'email':
        ns = [7, 12, 20]
        for op, v in f.limits: ns += [int(v) - 1, int(v), int(v) + 1]
        for n in dict.fromkeys(ns):
            if n < 6 or n > 64: continue
            s = 'a' * (n - 5) + '@b.cd'; out.append((s, 's:' + s if limok(f, n) else None))
        out += [('nobody', None), ('a b@c', None)]
    elif t == 'blob':
        ns = [0, 1, 3]
        for op, v in f.limits: ns += [int(v) - 1, int(v), int(v) + 1]
        for n in dict.fromkeys(ns):
            if n >= 0: out.append((b'\x01' * n, 'b:' + '01' * n if limok(f, n) else None))
    return out

class Node(object):
    lang = 'Node.js'
    def __init__(s, ctx):
        s.ctx = ctx; s.dir = os.path.join(ctx.scratch.dir, 'node'); noderun.setup(s.dir)
    def go(s, i, pids, **o):
        """run configuration i; problems of the given kinds are reported"""
        ctx = s.ctx
        c, src, w = gen(i, **o)
        r = run(ctx, 'ort-nodejs', src, '-v')
        if r is None: return
        name = 'm%d' % i
        files = {'config.ort': src, 'generated.ts': r.text}
        try: s.go2(i, c, src, r, name, files, pids)
        finally:
            for x in ('.ts', '.mjs', '.json', '.db'):
                p = os.path.join(s.dir, name + x)
                if os.path.exists(p): os.unlink(p)
    def go2(s, i, c, src, r, name, files, pids):
        ctx = s.ctx
        def bad(p, what, **k):
            if p in pids:
                f = dict(files)
                for a, b in k.items(): f[a] = b if isinstance(b, str) else json.dumps(b, default=str, indent=1)
                ctx.problem('Node.js: ' + what, f, 'ort-nodejs -v config.ort')
                return True
        e = noderun.build(s.dir, name, r.out)
        if e:
            for p in pids: bad(p, 'the generated TypeScript does not parse: ' + e); break
            return
        p = e2e.Plan(c, i)
        calls = []; plan = dict(db=os.path.join(s.dir, name + '.db'), args={'bcrypt_cost': 4}, tables=dict((st.name, [dumpcol(f) for f in st.fields if f.type != 'struct']) for st in c.structs), calls=calls)
        todo = []
        if pids & {'P05', 'P06', 'P21', 'P16'}:
            p.save(plan['db'])
            for k in p.calls(2):
                L = p.args_of(k['st'], k['kind'], k['u'])
                d = dict(role=k['role'], fn=cname(k['st'], k['kind'], k['u']), args=[noderun.arg(f, v) for (f, nl), v in zip(L, k['args'])])
                if k['kind'] in ('insert', 'update', 'delete'): d['mut'] = True
                if k['kind'] == 'iterate': d['cb'] = True
                if k['kind'] == 'search': d['ret'] = 'obj'
                if k['kind'] == 'list': d['ret'] = 'list'
                calls.append(d); todo.append(('call', k))
        else: plan['db'] = None
        if 'P05' in pids and c.hasroles:
            plan['db'] or p.save(plan.setdefault('db', ''))
            for path, ok, cur in transitions(c, random.Random(i), 20):
                calls.append(dict(what='roles', path=path)); todo.append(('roles', path, ok, cur))
        if 'P07' in pids:
            rnd = random.Random(i)
            for st in c.structs:
                for f in st.fields:
                    if f.type == 'struct': continue
                    for t, want in vcases(c, f, rnd):
                        calls.append(dict(what='valid', key='%s-%s' % (st.name, f.name), v=['b', t.hex()] if isinstance(t, bytes) else ['s', t])); todo.append(('valid', st, f, t, want))
                    for t in (None, ['u']):
                        calls.append(dict(what='valid', key='%s-%s' % (st.name, f.name), v=t)); todo.append(('valid', st, f, t, None))
        if not calls: return ctx.trivial()
        out, err = noderun.run(s.dir, name, plan)
        if out is None:
            for q in pids: bad(q, 'the generated module fails: ' + str(err)); break
            return
        s.judge(c, p, todo, calls, out, bad, src)
    def judge(s, c, p, todo, calls, out, bad, src):
        ctx = s.ctx
        for t, d, g in zip(todo, calls, out):
            if t[0] == 'roles':
                _, path, ok, cur = t
                ctx.case((src, tuple(path)), '%s -> %s' % (path, 'accepted' if ok else 'refused'))
                if g.get('err'): bad('P05', 'role changes %s fail: %s' % (path, g['err'])); return
                if bool(g.get('abort')) != (not ok):
                    bad('P05', 'the role changes default -> %s are %s' % (' -> '.join(path), 'refused' if ok else 'accepted')); return
                if ok and g.get('role') != cur: bad('P05', 'after %s the role is %s' % (path, g.get('role'))); return
            elif t[0] == 'valid':
                _, st, f, x, want = t
                got = None if g.get('v') is None else noderun.val(f, g['v'])
                ctx.case((fieldtext(f), str(x)), '%s.%s %s: %r -> %s' % (st.name, f.name, f.limits, x, want))
                if g.get('none'): bad('P07', 'no validator for %s-%s' % (st.name, f.name)); return
                if g.get('err') or g.get('abort'): bad('P07', 'the validator of %s-%s fails on %r: %s' % (st.name, f.name, x, g.get('err'))); return
                if f.type == 'email' and got and want: continue
                if f.type == 'bits' and got is not None and want is not None and f.type == 'bits': got = 'i:%d' % s64v(got); want = 'i:%d' % s64v(want)
                if got != want:
                    bad('P07', 'the validator of %s-%s (%s) gives %s on %r, not %s' % (st.name, f.name, fieldtext(f), got, x, want)); return
            else:
                if s.one(c, p, t[1], d, g, bad, src): return
    def one(s, c, p, k, d, g, bad, src):
        ctx = s.ctx; st, kind, u = k['st'], k['kind'], k['u']
        what = '%s(%s) in role %s' % (d['fn'], ', '.join('null' if a is None else '%s:%s' % tuple(a) for a in d['args']), k['role'])
        if g.get('none'): bad('P21', '%s is not generated' % d['fn']); return 1
        den = bool(g.get('abort'))
        if 'P05' in ctx.pids: ctx.case((src, d['fn'], k['role']), '%s: %s' % (what, 'allowed' if k['ok'] else 'refused'))
        if den and k['ok']: bad('P05', '%s is refused' % what); return 1
        if not k['ok']:
            if not den: bad('P05', '%s is allowed: %s' % (what, {x: g[x] for x in g if x != 'dump'})); return 1
            return
        if g.get('argc') is not None and g['argc'] != len(d['args']) + (1 if d.get('cb') else 0): bad('P21', '%s takes %d arguments instead of %d' % (d['fn'], g['argc'], len(d['args']))); return 1
        if g.get('err') is not None and ('no such column' in g['err'] or 'ambiguous' in g['err']):
            bad('P16', '%s: %s' % (what, g['err']))
        e, v, dump = p.run(k)
        if 'P05' not in ctx.pids or len(ctx.pids) > 1: ctx.case((src, d['fn'], str(d['args'])), '%s -> %s' % (what, e))
        if kind in ('insert', 'update', 'delete') and any(f.ref and f.ref[0] == x.name for x in c.structs for f in x.fields):
            # releases of SQLite differ in when a row may refer to itself
            no = g.get('err') is not None or g.get('v') in (['t', False], ['i', '-1'])
            if no != (e in ('constraint', 'false') or v == -1): return
        if g.get('err') is not None:
            if e == 'constraint' and g.get('sql'): return
            bad('P21', '%s fails: %s (expected %s)' % (what, g['err'], e)); return 1
        if e == 'constraint' and (kind == 'delete' or g.get('v') not in (['t', False], ['i', '-1'])): bad('P21', '%s does not report the constraint violation: %s' % (what, v)); return 1
        if 'dump' in g:
            got = dict((x.name, sorted([[dumpval(f, y) for f, y in zip([f for f in x.fields if f.type != 'struct'], row)] for row in g['dump'][x.name]], key=str)) for x in c.structs)
            if got != dump:
                df = [x for x in got if got[x] != dump[x]]
                bad('P21', '%s leaves the wrong rows in %s: %s instead of %s' % (what, df[0], [x for x in got[df[0]] if x not in dump[df[0]]][:2], [x for x in dump[df[0]] if x not in got[df[0]]][:2])); return 1
            if e == 'constraint': return
            if e == 'id':
                if g['v'] != ['i', str(v)]:
                    bad('P21', '%s returns %s instead of %s' % (what, g['v'], v)); return 1
            elif e in ('true', 'false'):
                if g['v'] != ['t', e == 'true']: bad('P21', '%s returns %s instead of %s' % (what, g['v'], e)); return 1
            return
        if e == 'count':
            if g['v'] != ['i', str(v)]: bad('P21', '%s returns %s instead of %d' % (what, g['v'], v)); return 1
            return
        if e == 'count?': return
        D = v['D']
        objs = [noderun.raw(p.by, D, x['raw']) if x else None for x in g['l']]
        t = p.check(k, kind, objs)
        if t: bad('P21', '%s: %s' % (what, t)); return 1
        for x, o in zip(g['l'], objs):
            if not isinstance(o, dict): continue
            if x.get('err'): bad('P06', 'exporting a result of %s fails: %s' % (what, x['err'])); return 1
            ex = noderun.exp(p.by, D, x['exp']); w = p.export(D, o, k['role'])
            if 'P06' in ctx.pids: ctx.case((src, D.name, k['role'], 'x'), 'export of %s in role %s: %s' % (D.name, k['role'], sorted(w)))
            if ex != w: bad('P06', 'a result of %s exports %s' % (what, dif(ex, w))); return 1

class CC(Node):
    lang = 'C'
    def __init__(s, ctx):
        s.ctx = ctx; s.dir = os.path.join(ctx.scratch.dir, 'c'); s.ok = crun.setup(s.dir)
    def go(s, i, pids, **o):
        ctx = s.ctx
        c, src, w = gen(i, **o)
        safe = i % 3 != 0
        h = run(ctx, 'ort-c-header', src, *(['-jsv'] if safe else ['-jv']))
        if h is None: return
        r = run(ctx, 'ort-c-source', src, '-S', ctx.repo, '-jv', '-h', 'c%d.h' % i)
        if r is None: return
        name = 'c%d' % i
        try: s.go2c(i, c, src, h, r, name, safe, pids)
        finally:
            for x in ('.h', '.c', '-main.c', '.exe', '.db'):
                p = os.path.join(s.dir, name + x)
                if os.path.exists(p): os.unlink(p)
    def go2c(s, i, c, src, h, r, name, safe, pids):
        ctx = s.ctx
        files = {'config.ort': src}
        def bad(p, what, **k):
            if p in pids:
                f = dict(files)
                for a, b in k.items(): f[a] = b if isinstance(b, str) else json.dumps(b, default=str, indent=1)
                ctx.problem('C: ' + what, f, 'ort-c-header -j%sv config.ort > %s.h; ort-c-source -jv -h %s.h config.ort' % ('s' if safe else '', name, name))
                return True
        for x, y in (('.h', h), ('.c', r)):
            with open(os.path.join(s.dir, name + x), 'wb') as f: f.write(y.out)
        p = e2e.Plan(c, i); db = os.path.join(s.dir, name + '.db')
        d = crun.Drv(c, safe)
        calls = []; todo = []; tables = {}
        if pids & {'P05', 'P06', 'P21', 'P16'}:
            p.save(db); tables = dict((st.name, [dumpcol(f) for f in st.fields if f.type != 'struct'] or ['1']) for st in c.structs)
            for k in p.calls(2):
                st, kind, u = k['st'], k['kind'], k['u']
                if u is not None and u.get('distinct') and any(f.type == 'password' and o in ('eq', 'neq') for q, f, o in u.terms): continue
                if kind == 'iterate' and u.get('distinct') and u.distinct != ['.'] and False: continue
                L = p.args_of(st, kind, u)
                D = st
                if u is not None and u.get('distinct') and u.distinct != ['.']: D = p.by[chain(c, st, u.distinct)[-1][1].tgt]
                fn = cname(st, kind, u)
                d.call(st, kind, u, k['role'], k['args'], L, fn, D.name)
                calls.append(dict(fn=fn, args=[None if v is None else [f.type, str(v)] for (f, nl), v in zip(L, k['args'])])); todo.append(('call', k))
        roles = ['default', 'none'] + [x.name for x in c.roles] if c.hasroles else []
        if 'P05' in pids and c.hasroles:
            if not tables: p.save(db)
            for path, ok, cur in transitions(c, random.Random(i), 20):
                if 'all' in path: continue
                d.roles(path); calls.append({}); todo.append(('roles', path, ok, cur))
        nv = 0
        if 'P07' in pids:
            rnd = random.Random(i)
            for st in c.structs:
                for f in st.fields:
                    if f.type in ('struct', 'blob'): continue
                    for t, want in vcases(c, f, rnd):
                        d.valid(st, f, t); calls.append({}); todo.append(('valid', st, f, t, want)); nv += 1
        if not calls: return ctx.trivial()
        e = crun.cc(s.dir, name, [name + '.c'], name + '.o', ['-c'])
        try:
            if e:
                for q in pids: bad(q, 'the generated source does not compile: ' + e); return
            with open(os.path.join(s.dir, name + '-main.c'), 'w', errors='surrogateescape') as f: f.write(d.text(name + '.h', db, tables, nv, roles))
            e = crun.cc(s.dir, name, [name + '-main.c', name + '.o'], name + '.exe')
            if e:
                for q in pids & {'P21', 'P05', 'P06', 'P07'}: bad(q, 'the interface is not the documented one: ' + e, driver=open(os.path.join(s.dir, name + '-main.c'), errors='surrogateescape').read()); return
                return
        finally:
            x = os.path.join(s.dir, name + '.o')
            if os.path.exists(x): os.unlink(x)
        out, err = crun.run(s.dir, name + '.exe')
        if out is None: ctx.notes.append('C driver: ' + str(err)); return
        s.judge(c, p, todo, calls, out, bad, src)

def dumpcol(f): return 'CASE WHEN "%s" IS NULL THEN NULL ELSE lower(hex("%s")) END' % (f.name, f.name) if f.type == 'blob' else '"%s"' % f.name
def dumpval(f, y): return 'b:' + y[1] if f.type == 'blob' and y is not None else noderun.val(f, y)
def dif(a, b, pre=''):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k, 'ABSENT') == b.get(k, 'ABSENT'): continue
        if isinstance(a.get(k), dict) and isinstance(b.get(k), dict): out.append(dif(a[k], b[k], pre + k + '.'))
        else: out.append('%s%s = %s, not %s' % (pre, k, a.get(k, 'ABSENT'), b.get(k, 'ABSENT')))
    return '; '.join(out)
def s64v(x): return e2e.s64(int(x[2:]))

def node(ctx, pids, n, budget, **o):
    ctx.pids = set(pids)
    if noderun.esbuild() is None or shutil.which('node') is None:
        ctx.notes.append('node or esbuild missing: generated TypeScript not run'); return
    x = Node(ctx)
    ctx.each(n, lambda i: x.go(i, set(pids), **o), budget)
def cee(ctx, pids, n, budget, **o):
    ctx.pids = set(pids)
    if shutil.which('gcc') is None: ctx.notes.append('gcc missing: generated C not run'); return
    x = CC(ctx)
    if not x.ok: ctx.notes.append('stand-ins do not compile: generated C not run'); return
    ctx.each(n, lambda i: x.go(i, set(pids), **o), budget)
def p05(ctx): node(ctx, ["P05"], 300, 50, roles=1.0); cee(ctx, ["P05"], 300, 50, roles=1.0)
def p06(ctx): node(ctx, ["P06"], 400, 50, roles=.9); cee(ctx, ["P06"], 400, 50, roles=.9)
def p07(ctx): node(ctx, ["P07"], 400, 50, roles=0, ops=0); cee(ctx, ["P07"], 400, 50, roles=0, ops=0)
def p21(ctx): node(ctx, ["P21"], 500, 60, roles=.2); cee(ctx, ["P21"], 500, 60, roles=.2)
def p16(ctx): node(ctx, ["P16"], 400, 50, roles=0); cee(ctx, ["P16"], 300, 50, roles=0)
