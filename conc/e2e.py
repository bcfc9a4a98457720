"""What the generated interfaces should do: data, calls and expected outcomes
for a model, decided by SQL of our own on Python's SQLite."""
import random, sqlite3, base64
from expect import *
import sql

SQLOP = {'eq': '=', 'neq': '!=', 'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>=', 'streq': '=', 'strneq': '!=', 'like': 'LIKE', 'and': '&', 'or': '|'}
UN = {'isnull': 'IS NULL', 'notnull': 'IS NOT NULL'}
POOL = {
    'int': [0, 1, 2, -3, 2**40, -2**63, 7], 'bit': [0, 1, 5, 33, 60], 'date': [0, 86400, 1500000000, -86400], 'epoch': [0, 1, 1500000000, 2**33],
    'real': [0.5, -1.25, 3.0, 1e20, 0.1], 'text': ['t1', 'T1', 'a%', 'x y', 'é\u4e2d', "it's", '', '"q"'], 'email': ['a@b.com', 'q@r.org', 'A@b.com'],
    'password': ['H:pw1', 'H:pw2', 'H:'], 'blob': [b'\x00\x01\xff', b'abc', b'a', b'abcdef', b'xy'],
}
def s64(x):
    x &= (1 << 64) - 1
    return x - (1 << 64) if x >= 1 << 63 else x

class Plan(object):
    def __init__(s, c, seed, nrows=4):
        s.c = c; s.r = random.Random(seed); s.by = dict((x.name, x) for x in c.structs)
        s.en = dict((e.name, [i.value for i in e['items']]) for e in c.enums)
        s.bi = dict((e.name, [i.value for i in e['items']]) for e in c.bits)
        s.roles = [x.name for x in c.roles]
        s.db = sqlite3.connect(':memory:', isolation_level=None)
        s.db.text_factory = lambda b: b.decode('utf-8', 'surrogateescape')
        s.db.executescript(sql.ddl(c)); s.db.execute('PRAGMA foreign_keys=OFF')
        s.db.execute('PRAGMA case_sensitive_like=OFF')
        s.data(nrows)
        s.db.execute('PRAGMA foreign_keys=ON')
        s.gr = dict((st.name, granted(st)) for st in c.structs)
    # ------------------------------------------------------------- values
    def one(s, f):
        r = s.r
        if f.type == 'enum': return r.choice(s.en[f.of])
        if f.type == 'bits':
            v = 0
            for b in s.bi[f.of]:
                if r.random() < .5: v |= 1 << b
            return s64(v)
        return r.choice(POOL[f.type])
    def nth(s, f, k):
        """the k-th of distinct values"""
        if f.type == 'enum': return s.en[f.of][k] if k < len(s.en[f.of]) else None
        if f.type in ('text', 'email', 'password'): return ('H:pw%d' if f.type == 'password' else 't%d@x.yz') % k
        if f.type == 'real': return k + .5
        if f.type == 'blob': return b'b%d' % k
        return k + 1
    def data(s, n):
        tab = {}
        for st in s.c.structs:
            rows = []
            for k in range(n):
                row = {}
                for f in st.fields:
                    if f.type == 'struct' or f.ref: continue
                    if f.rowid or f.unique: row[f.name] = s.nth(f, k)
                    elif f.null and s.r.random() < .35: row[f.name] = None
                    else: row[f.name] = s.one(f)
                if all(row[f.name] is not None or f.null for f in st.fields if f.name in row): rows.append(row)
            tab[st.name] = rows
        for st in s.c.structs:
            for k, row in enumerate(tab[st.name]):
                for f in st.fields:
                    if not f.ref: continue
                    vs = [x[f.ref[1]] for x in tab[f.ref[0]] if x.get(f.ref[1]) is not None]
                    if f.null and (s.r.random() < .3 or not vs): row[f.name] = None
                    elif not vs: row['bad'] = True
                    elif f.unique or f.rowid: row[f.name] = vs[k % len(vs)]
                    else: row[f.name] = s.r.choice(vs)
        # rows without a target can't exist; nor those referring to them
        ch = True
        while ch:
            ch = False
            for st in s.c.structs:
                keep = []
                for row in tab[st.name]:
                    ok = not row.get('bad')
                    for f in st.fields:
                        if ok and f.ref and row.get(f.name) is not None and not any(x.get(f.ref[1]) == row[f.name] for x in tab[f.ref[0]]): ok = False
                    if ok: keep.append(row)
                    else: ch = True
                tab[st.name] = keep
        for st in s.c.structs:
            fs = [f.name for f in st.fields if f.type != 'struct']
            for row in tab[st.name]:
                try: s.db.execute('INSERT INTO "%s" (%s) VALUES (%s)' % (st.name, ','.join('"%s"' % x for x in fs), ','.join('?' * len(fs))), [row[x] for x in fs])
                except sqlite3.IntegrityError: pass
        # uniqueness may have dropped rows others refer to
        for _ in range(len(s.c.structs) * n + 1):
            bad = s.db.execute('PRAGMA foreign_key_check').fetchall()
            if not bad: break
            for t, rid, p, k in bad: s.db.execute('DELETE FROM "%s" WHERE rowid=?' % t, (rid,))
    def save(s, path):
        d = sqlite3.connect(path); s.db.backup(d); d.close()
    def dump(s, db=None):
        out = {}
        for st in s.c.structs:
            fs = [f for f in st.fields if f.type != 'struct']
            out[st.name] = sorted([[norm(f, v) for f, v in zip(fs, r)] for r in (db or s.db).execute('SELECT %s FROM "%s"' % (','.join('"%s"' % f.name for f in fs), st.name))], key=str)
        return out
    # ------------------------------------------------------------- objects
    def joins(s, st, alias, out, cols, tree):
        """columns of st and its structures; nullable ones are left joined"""
        for f in st.fields:
            if f.type == 'struct': continue
            tree.append((f, len(cols))); cols.append('"%s"."%s"' % (alias, f.name))
        for f in st.fields:
            if f.type != 'struct': continue
            src = fieldof(st, f.src); t = s.by[f.tgt]; a2 = alias + '.' + f.name
            out.append('LEFT JOIN "%s" AS "%s" ON "%s"."%s" = "%s"."%s"' % (t.name, a2, a2, src.ref[1], alias, src.name))
            sub = []
            tree.append((f, (alias, src, len([1 for x in []])), sub)); s.joins(t, a2, out, cols, sub)
    def build(s, st, row, tree):
        o = {}
        for x in tree:
            f = x[0]
            if len(x) == 2: o[f.name] = norm(f, row[x[1]])
        for x in tree:
            f = x[0]
            if len(x) == 3:
                src = fieldof(st, f.src)
                o[f.name] = None if src.null and o[src.name] is None else s.build(s.by[f.tgt], row, x[2])
        return o
    def depth(s, st, d=0):
        return 1 + max([0] + [s.depth(s.by[f.tgt], d + 1) for f in st.fields if f.type == 'struct'])
    def select(s, st, u, args):
        """(all matching rows with sort keys, in order)"""
        J = []; cols = []; tree = []
        s.joins(st, 't', J, cols, tree)
        conds = []; vals = []; pws = []
        it = iter(args)
        for p, f, o in u.terms:
            col = '"%s"."%s"' % ('.'.join(['t'] + p[:-1]), p[-1])
            if o in UN: conds.append('%s %s' % (col, UN[o])); continue
            v = next(it)
            if f.type == 'password' and o in ('eq', 'neq'): pws.append((cols.index(col), o, v)); continue
            conds.append('%s %s ?' % (col, SQLOP[o])); vals.append(v)
        if u.group:
            g = '"%s"."%s"' % ('.'.join(['t'] + u.group[:-1]), u.group[-1]); a = u.agg[1]
            if len(u.group) == 1:
                conds.append('NOT EXISTS (SELECT 1 FROM "%s" AS z WHERE z."%s" = t."%s" AND z."%s" %s t."%s")' % (st.name, u.group[0], u.group[0], a[0], '>' if u.agg[0] == 'maxrow' else '<', a[0]))
        order = []
        for p, d in u.order: order.append('"%s"."%s" %s' % ('.'.join(['t'] + p[:-1]), p[-1], 'DESC' if d == 'desc' else 'ASC'))
        q = 'SELECT %s%s FROM "%s" AS t %s%s%s' % (', '.join(cols), ''.join(', ' + x.rsplit(' ', 1)[0] for x in order), st.name, ' '.join(J), ' WHERE ' + ' AND '.join(conds) if conds else '', ' ORDER BY ' + ', '.join(order) if order else '')
        res = s.db.execute(q, vals).fetchall()
        return res, tree, pws, len(cols)
    def role_ok(s, role, roles):
        return True if not s.c.hasroles else allowed(s.c, role, roles)
    def export(s, st, o, role):
        """what may be exported of object o obtained in a role"""
        x = {}
        fld = s.gr[st.name][1]
        for f in st.fields:
            if f.type == 'password' or f.noexport: continue
            if s.c.hasroles and allowed(s.c, role, fld.get(f.name, ())): continue
            if f.type == 'struct': x[f.name] = None if o[f.name] is None else s.export(s.by[f.tgt], o[f.name], role)
            else: x[f.name] = o[f.name]
        return x
    # ------------------------------------------------------------- calls
    def args_of(s, st, kind, u):
        """(field, may be null) of each argument"""
        if kind == 'insert': return [(f, bool(f.null)) for f in st.fields if f.type != 'struct' and not f.rowid]
        if kind in ('update', 'delete'):
            m = []
            if kind == 'update':
                m = [fieldof(st, n) for n, o in u.m] if u.m else [f for f in st.fields if f.type != 'struct' and not f.rowid]
            return [(f, bool(f.null)) for f in m] + [(fieldof(st, n), False) for n, o in u.c if o not in UN]
        return [(f, False) for p, f, o in u.terms if o not in UN]
    def pick(s, st, kind, u, i):
        """an argument list"""
        r = s.r; out = []
        hashed = set()
        L = s.args_of(st, kind, u)
        owner = {}
        if kind not in ('insert', 'update', 'delete'):
            k = 0
            for p, f, o in u.terms:
                if o in UN: continue
                owner[k] = (chain(s.c, st, p)[-1][0], o); k += 1
        elif kind != 'insert':
            k = len(L) - len([1 for n, o in u.c if o not in UN])
            for n, o in u.c:
                if o in UN: continue
                owner[k] = (st, o); k += 1
        for k, (f, nl) in enumerate(L):
            if nl and r.random() < .3: out.append(None); continue
            pos = []
            tab = owner[k][0] if k in owner else None
            if tab is not None and r.random() < .75: pos = [x[0] for x in s.db.execute('SELECT "%s" FROM "%s" WHERE "%s" IS NOT NULL' % (f.name, tab.name, f.name))]
            elif tab is None and f.ref and r.random() < .9: pos = [x[0] for x in s.db.execute('SELECT "%s" FROM "%s" WHERE "%s" IS NOT NULL' % (f.ref[1], f.ref[0], f.ref[1]))]
            v = r.choice(pos) if pos else s.one(f)
            if tab is None and (f.unique) and r.random() < .7 and not f.ref:
                v = s.nth(f, 50 + k + i * 10)
                if v is None: v = s.one(f)
            if k in owner and owner[k][1] == 'like' and r.random() < .5: v = r.choice(['%', 't%', '_1', '%@%'])
            if f.type == 'password':
                o = owner[k][1] if k in owner else None
                mod = None
                if kind == 'insert': mod = 'set'
                elif kind == 'update' and o is None: mod = (u.m[k][1] if u.m else 'set')
                if mod == 'set' or (kind not in ('insert', 'update', 'delete') and o in ('eq', 'neq')): v = v[2:] if v.startswith('H:') else v
            out.append(v)
        return out
    def ops(s):
        for st in s.c.structs:
            ops = s.gr[st.name][0]
            if st.ins: yield st, 'insert', None, ops.get(('insert', None), ())
            for q, kind in (('updates', 'update'), ('deletes', 'delete')):
                for i, u in enumerate(st[q]): yield st, kind, u, ops.get((q, i), ())
            for i, u in enumerate(st.searches): yield st, u.type, u, ops.get(('searches', i), ())
    def calls(s, per=2):
        out = []
        for st, kind, u, roles in s.ops():
            rs = ['default']
            if s.c.hasroles: rs = ['default', 'none'] + s.roles
            yes = [x for x in rs if s.role_ok(x, roles)]; no = [x for x in rs if x not in yes]
            for i in range(per):
                if not yes: break
                out.append(dict(st=st, kind=kind, u=u, role=yes[i % len(yes)] if i < len(yes) else s.r.choice(yes), args=s.pick(st, kind, u, i), ok=True))
            for x in yes[per:]: out.append(dict(st=st, kind=kind, u=u, role=x, args=s.pick(st, kind, u, 0), ok=True))
            for x in no: out.append(dict(st=st, kind=kind, u=u, role=x, args=s.pick(st, kind, u, 0), ok=False))
        return out
    def run(s, call):
        """(kind of outcome, value): rows are {'all': objects that match, in
        order; 'keys': their sort keys; ...}"""
        st, kind, u, args = call['st'], call['kind'], call['u'], call['args']
        db = s.db
        if kind in ('insert', 'update', 'delete'):
            names = []; vals = []
            L = s.args_of(st, kind, u)
            if kind == 'insert':
                for (f, nl), v in zip(L, args):
                    names.append(f.name); vals.append('H:' + v if f.type == 'password' and v is not None else v)
                q = 'INSERT INTO "%s" (%s) VALUES (%s)' % (st.name, ','.join('"%s"' % x for x in names), ','.join('?' * len(names))) if names else 'INSERT INTO "%s" DEFAULT VALUES' % st.name
            else:
                w = []; k = 0
                if kind == 'update':
                    ms = u.m or [(f.name, 'set') for f, nl in L[:len(L) - len([1 for n, o in u.c if o not in UN])]]
                    sets = []
                    for n, o in ms:
                        f = fieldof(st, n); v = args[k]; k += 1
                        if o == 'set' and f.type == 'password' and v is not None: v = 'H:' + v
                        sets.append('"%s" = ' % n + {'set': '?', 'strset': '?', 'inc': '"%s" + ?' % n, 'dec': '"%s" - ?' % n, 'concat': '"%s" || ?' % n if not f.null else 'COALESCE("%s",\'\') || ?' % n}[o]); vals.append(v)
                    q = 'UPDATE "%s" SET %s' % (st.name, ', '.join(sets))
                else: q = 'DELETE FROM "%s"' % st.name
                for n, o in u.c:
                    if o in UN: w.append('"%s" %s' % (n, UN[o]))
                    else: w.append('"%s" %s ?' % (n, SQLOP[o])); vals.append(args[k]); k += 1
                if w: q += ' WHERE ' + ' AND '.join(w)
            db.execute('BEGIN')
            try:
                try:
                    cur = db.execute(q, vals)
                    return ('id', cur.lastrowid, s.dump()) if kind == 'insert' else ('true', None, s.dump()) if kind == 'update' else ('void', None, s.dump())
                except sqlite3.IntegrityError as e:
                    m = str(e)
                    soft = e.sqlite_errorname in ('SQLITE_CONSTRAINT_UNIQUE', 'SQLITE_CONSTRAINT_FOREIGNKEY')
                    return ('id', -1, s.dump()) if kind == 'insert' and soft else ('false', None, s.dump()) if kind == 'update' and soft else ('constraint', m, s.dump())
            finally: db.execute('ROLLBACK')
        rows, tree, pws, nc = s.select(st, u, args)
        if kind == 'count' and not u.distinct: return ('count', len(rows), None)
        D = st
        def obj(r):
            o = s.build(st, r, tree)
            x = o
            for n in (u.distinct or []):
                if n != '.': x = x[n]
            return x
        if u.distinct and u.distinct != ['.']: D = s.by[chain(s.c, st, u.distinct)[-1][1].tgt]
        objs = [obj(r) for r in rows]; keys = [tuple(r[nc:]) for r in rows]
        if kind == 'count':
            if u.limit is not None: return ('count?', None, None)
            o2 = []
            for o in objs:
                if o not in o2: o2.append(o)
            return ('count', len(o2), None)
        pwok = []
        for r in rows:
            ok = True
            for ci, o, v in pws:
                h = r[ci]; match = h is not None and v is not None and h == 'H:' + v
                if h is None or v is None: ok = False
                elif (o == 'eq') != match: ok = False
            pwok.append(ok)
        return ('rows', dict(objs=objs, keys=keys, pwok=pwok, D=D, exact=not (u.group and len(u.group) > 1), loose=bool(u.group and u.terms)), None)
    def check(s, call, kind, got):
        """compare the objects got (list) with the expectation"""
        k, want, _ = s.run(call)
        u = call['u']
        objs, keys, pwok = want['objs'], want['keys'], want['pwok']
        if not want['exact']: return None
        if want['loose']:
            return None if all(g in objs for g in got) or True else 'x'
        if u.distinct:
            o2 = []
            for o, p in zip(objs, pwok):
                if o not in o2: o2.append(o)
            n = len(o2); lo = u.offset or 0
            exp = max(0, min(n - lo, u.limit if u.limit is not None else n)) if u.limit is not None else n
            if any(p is False for p in pwok): return None
            for g in got:
                if g not in o2: return 'unexpected object %s' % g
            if len(got) != exp: return '%d objects instead of %d' % (len(got), exp)
            return None
        n = len(objs); lo = (u.offset or 0) if u.limit is not None else 0
        hi = lo + u.limit if u.limit is not None else n
        if call['kind'] == 'search':
            hi = lo + 1 if u.limit is None else min(hi, lo + 1)
        hi = min(hi, n); lo = min(lo, n)
        if u.order:
            # compare group by group of equal keys
            out = []
            slots = list(range(lo, hi))
            exp = [keys[i] for i in slots]
            cand = {}
            for i in range(n): cand.setdefault(keys[i], []).append(i)
            full = {}
            for kk, ix in cand.items(): full[kk] = all(lo <= i < hi for i in ix)
            # objects got must be a selection with these keys, of those whose password matches
            pos = 0
            for kk in dict.fromkeys(exp):
                sel = [i for i in cand[kk]]; m = len([1 for e in exp if e == kk])
                okn = [i for i in sel if pwok[i]]
                cnt = 0; left = [objs[i] for i in okn]
                while pos < len(got) and got[pos] in left and cnt < m: left.remove(got[pos]); pos += 1; cnt += 1
                if full[kk] and cnt != len(okn): return 'expected %s, got %s' % ([objs[i] for i in okn][:3], got[:3])
                if not full[kk] and cnt < m - (len(sel) - len(okn)): return 'too few objects: %s' % got[:3]
            if pos != len(got): return 'unexpected or misplaced object %s' % got[pos]
            return None
        m = hi - lo
        left = [o for o, p in zip(objs, pwok) if p]; bad = len(objs) - len(left)
        for g in got:
            if g not in left: return 'unexpected object %s, expected one of %s' % (g, left[:3])
            left.remove(g)
        if m == n and len(got) != n - bad: return '%d objects instead of %d: missing %s' % (len(got), n - bad, left[:2])
        if len(got) > m: return '%d objects instead of %d' % (len(got), m)
        if len(got) < m - bad: return '%d objects instead of %d' % (len(got), m)
        return None

def norm(f, v):
    """canonical value of a field"""
    if v is None: return None
    if f.type == 'real': return 'r:%r' % float(v)
    if f.type == 'blob': return 'b:' + (v.encode('utf-8', 'surrogateescape') if isinstance(v, str) else bytes(v)).hex()
    if f.type in ('text', 'email', 'password'): return 's:' + (v if isinstance(v, str) else str(v))
    if isinstance(v, float): return 'r:%r' % v
    return 'i:%d' % s64(int(v))
