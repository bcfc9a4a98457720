"""Random edits of a configuration model (for comparing two configurations).
The result may be no valid configuration: callers ask the tool."""
import copy, random
from model import *

def allf(c): return [(st, f) for st in c.structs for f in st.fields]

def near(v, r):
    """another decimal number, barely different"""
    import math
    x = float(v)
    x = math.nextafter(x, 1e300)
    if r.random() < .6: x = float(v) * (1 + 2.0 ** -r.randint(20, 50)) or 1e-7
    t = '%.25f' % x if abs(x) < 1e6 else '%.10f' % x
    return t if float(t) == x else '%d.5' % r.randint(0, 9)

class Mut(object):
    def __init__(s, seed, c):
        s.r = random.Random(seed); s.c = copy.deepcopy(c); s.n = 0
        s.g = Gen(seed); s.g.names = set(['zz'])
        s.done = []
    def new(s):
        s.n += 1
        return s.r.choice(['nu', 'vix', 'ozz', 'yam']) + 'new%d' % s.n
    def doc(s, o):
        r = s.r
        if o.doc and r.random() < .25: o.doc = o.doc.swapcase() if o.doc.swapcase() != o.doc else o.doc + '.'; return
        o.doc = r.choice([None, 'Changed.', 'x', 'other\nline', (o.doc or '') + ' more']) if o.doc is None or r.random() < .7 else o.doc.upper()
    def lab(s, d):
        r = s.r
        k = r.choice(['', 'en', 'fr', 'de'])
        if k in d and r.random() < .5: del d[k]
        elif k in d: d[k] = d[k] + 'x' if r.random() < .5 else d[k].swapcase()
        elif d and r.random() < .5:
            o = r.choice(list(d)); d[k] = d.pop(o)
        else: d[k] = r.choice(['Lab', 'é', "it's"])
    def pick(s, l): return s.r.choice(l) if l else None
    def step(s):
        r = s.r; c = s.c
        m = s.pick([n for n in dir(s) if n.startswith('m_')])
        x = getattr(s, m)(c, r)
        if x is not False: s.done.append(m)
        return x is not False
    def run(s, k, only=None):
        for _ in range(40):
            if len(s.done) >= k: break
            if only:
                m = s.pick(only)
                if getattr(s, m)(s.c, s.r) is not False: s.done.append(m)
            else: s.step()
        return s.c
    # ---- roles
    def m_role_add(s, c, r):
        if not c.hasroles: return False
        c.roles.append(M(name=s.new(), parent=s.pick([None] + [x.name for x in c.roles]), doc=s.pick([None, 'r'])))
    def m_role_del(s, c, r):
        l = [x for x in c.roles if not any(y.parent == x.name for y in c.roles)]
        x = s.pick(l)
        if x is None: return False
        c.roles.remove(x)
        for st in c.structs:
            st.roleops = [([n for n in rs if n != x.name], its) for rs, its in st.roleops if [n for n in rs if n != x.name]]
    def m_role_move(s, c, r):
        x = s.pick(c.roles)
        if x is None: return False
        par = dict((y.name, y.parent) for y in c.roles)
        def under(n):
            while n:
                if n == x.name: return True
                n = par.get(n)
            return False
        x.parent = s.pick([None] + [y.name for y in c.roles if not under(y.name)])
    def m_role_doc(s, c, r):
        x = s.pick(c.roles)
        if x is None: return False
        s.doc(x)
    def m_roleops(s, c, r):
        if not c.hasroles: return False
        st = s.pick(c.structs); k = r.random()
        if st.roleops and k < .35: st.roleops.remove(s.pick(st.roleops))
        elif st.roleops and k < .7:
            i = r.randrange(len(st.roleops)); rs, its = st.roleops[i]
            st.roleops[i] = (s.g.antichain(c), its)
        else:
            ops = [('noexport', f.name) for f in st.fields] + [('noexport', None), ('all', None)] + ([('insert', None)] if st.ins else [])
            ops += [(k2, u.name) for k2, q in (('update', st.updates), ('delete', st.deletes)) for u in q if u.name] + [(q.type, q.name) for q in st.searches if q.name]
            st.roleops.append((s.g.antichain(c), [s.pick(ops)]))
    def m_roleops_order(s, c, r):
        st = s.pick(c.structs)
        r.shuffle(st.roleops)
        st.roleops = [(r.sample(rs, len(rs)), r.sample(its, len(its))) for rs, its in st.roleops]
    # ---- enums and bits
    def m_item_add(s, c, r):
        e = s.pick(c.enums + c.bits)
        if e is None: return False
        isb = e in c.bits
        used = [i.value for i in e['items']]
        v = s.pick([x for x in (list(range(64)) if isb else range(-20, 300)) if x not in used])
        if v is None: return False
        e['items'].insert(r.randint(0, len(e['items'])), M(name=s.new(), value=v, given=v, doc=None, labels={}))
        s.renum(e, isb)
    def renum(s, e, isb):
        if isb: return
        nx = max([i.given for i in e['items'] if i.given is not None] + [-1]) + 1
        nx = max(nx, 0)
        for i in e['items']:
            if i.given is None: i.value = nx; nx += 1
    def m_item_del(s, c, r):
        e = s.pick([x for x in c.enums + c.bits if len(x['items']) > 1])
        if e is None: return False
        e['items'].remove(s.pick(e['items'])); s.renum(e, e in c.bits)
    def m_item_value(s, c, r):
        e = s.pick(c.enums + c.bits)
        if e is None: return False
        i = s.pick(e['items']); isb = e in c.bits
        v = s.pick([x for x in (list(range(64)) if isb else range(-20, 300)) if x not in [y.value for y in e['items']]])
        i.value = i.given = v; s.renum(e, isb)
    def m_item_doc(s, c, r):
        e = s.pick(c.enums + c.bits)
        if e is None: return False
        s.doc(s.pick(e['items']))
    def m_item_label(s, c, r):
        e = s.pick(c.enums + c.bits)
        if e is None: return False
        s.lab(s.pick(e['items']).labels)
    def m_item_order(s, c, r):
        e = s.pick([e for e in c.enums if all(i.given is not None for i in e['items'])] + c.bits)
        if e is None: return False
        r.shuffle(e['items'])
    def m_en_label(s, c, r):
        e = s.pick(c.enums + c.bits)
        if e is None: return False
        s.lab(e.isnull if e in c.enums or r.random() < .5 else e.isunset)
    def m_en_doc(s, c, r):
        e = s.pick(c.enums + c.bits)
        if e is None: return False
        s.doc(e)
    def m_en_add(s, c, r):
        q = r.choice((c.enums, c.bits))
        q.insert(r.randint(0, len(q)), M(name=s.new(), doc=None, isnull={}, isunset={}, items=[M(name='one', value=1, given=1, doc=None, labels={})]))
    def m_en_del(s, c, r):
        q = r.choice((c.enums, c.bits)); e = s.pick(q)
        if e is None or any(f.of == e.name for st, f in allf(c)): return False
        q.remove(e)
    # ---- structures
    def m_st_add(s, c, r):
        c.structs.insert(r.randint(0, len(c.structs)), M(name=s.new(), doc=None, fields=[M(name='id', type='int', rowid=True, limits=[], doc=None)], ins=r.random() < .5, updates=[], deletes=[], searches=[], uniques=[], roleops=[]))
    def m_st_del(s, c, r):
        st = s.pick([x for x in c.structs if not any((f.ref and f.ref[0] == x.name or f.tgt == x.name) and y is not x for y in c.structs for f in y.fields)])
        if st is None or len(c.structs) < 2: return False
        c.structs.remove(st)
    def m_st_doc(s, c, r): s.doc(s.pick(c.structs))
    def m_st_order(s, c, r): r.shuffle(c.structs)
    def used(s, c, st, f):
        n = f.name
        if any(n in [x for x, _ in u.m + u.c] for u in st.updates + st.deletes): return True
        if any(n in u for u in st.uniques) or any(k == 'noexport' and m == n for _, its in st.roleops for k, m in its): return True
        if any(g.src == n for g in st.fields): return True
        for y in c.structs:
            if any(g.ref == (st.name, n) for g in y.fields): return True
            for q in y.searches:
                ps = [t[0] for t in q.terms] + [o[0] for o in q.order] + [q.distinct or [], q.group or [], q.agg[1] if q.agg else []]
                if any(n in p for p in ps): return True
        return False
    def m_field_add(s, c, r):
        st = s.pick(c.structs)
        g = Gen(r.randrange(1 << 30)); g.names = set()
        f = g.field(c, M(fn=set(x.name for x in st.fields)))
        f.name = s.new()
        if r.random() < .4:
            t = s.pick([(y, x) for y, x in allf(c) if (x.rowid or x.unique) and x.type not in ('struct', 'password', 'blob') and not x.ref])
            if t: f = M(name=f.name, type=t[1].type, of=t[1].of, ref=(t[0].name, t[1].name), null=f.null, noexport=f.noexport, doc=None, limits=[], actdel=s.pick([None, 'cascade', 'restrict']), unique=False)
        st.fields.insert(r.randint(0, len(st.fields)), f)
    def m_field_del(s, c, r):
        l = [(st, f) for st, f in allf(c) if not s.used(c, st, f) and len(st.fields) > 1]
        x = s.pick(l)
        if x is None: return False
        x[0].fields.remove(x[1])
    def m_field_order(s, c, r): r.shuffle(s.pick(c.structs).fields)
    def fld(s, c, pred=lambda f: True):
        x = s.pick([f for st, f in allf(c) if pred(f)])
        return x
    def m_field_flag(s, c, r):
        f = s.fld(c, lambda f: not f.inherit)
        if f is None: return False
        k = r.choice(['null', 'noexport', 'unique', 'noexport', 'null', 'rowid'])
        if k in ('null', 'unique') and f.type == 'struct': return False
        f[k] = not f.get(k)
        if k == 'rowid' and f.type != 'int': f[k] = not f.get(k); return False
        if k == 'null': 
            for st, g in allf(c):
                if g.type == 'struct' and g.src == f.name and f in st.fields: g.null = f.null
    def m_field_doc(s, c, r):
        f = s.fld(c, lambda f: not f.inherit)
        if f is None: return False
        s.doc(f)
    def m_field_type(s, c, r):
        f = s.fld(c, lambda f: f.type not in ('struct',) and not f.ref and not f.inherit)
        if f is None: return False
        t = r.choice(['int', 'text', 'real', 'epoch', 'date', 'email', 'password', 'blob', 'bit'] + (['enum'] if c.enums else []) + (['bits'] if c.bits else []))
        f.type = t; f.of = s.pick(c.enums).name if t == 'enum' else s.pick(c.bits).name if t == 'bits' else None
        f.default = None; f.limits = []
    def m_field_of(s, c, r):
        f = s.fld(c, lambda f: f.type in ('enum', 'bits') and f.default is None and not f.ref)
        if f is None: return False
        f.of = s.pick(c.enums if f.type == 'enum' else c.bits).name
    def m_field_default(s, c, r):
        f = s.fld(c, lambda f: f.type in ('int', 'epoch', 'bit', 'real', 'text', 'email', 'enum', 'date', 'bits') and not f.ref and not f.rowid and not f.inherit)
        if f is None: return False
        if f.default is not None and r.random() < .3: f.default = None; return
        t = f.type
        if f.default is not None and r.random() < .5:
            # as close to the old value as possible
            if t in ('int', 'epoch', 'bits'):
                v = int(f.default) ^ (1 << r.randrange(0, 6 if t == 'bits' else 62))
                if -2**63 <= v < 2**63: f.default = '%d' % v; return
            elif t == 'real': f.default = near(f.default, r); return
            elif t in ('text', 'email'): f.default = f.default.swapcase() if r.random() < .5 else f.default[:-1] + ' "'; return
        if t in ('int', 'epoch', 'bit', 'bits'): f.default = '%d' % r.choice([r.randint(0, 60), 7, 8])
        elif t == 'real': f.default = r.choice(['1.5', '0.1', '-2.25', '3'])
        elif t in ('text', 'email'): f.default = q(r.choice(['abd', 'ABC', "it's", 'a\\"b', '']))
        elif t == 'enum': f.default = s.pick([e for e in c.enums if e.name == f.of][0]['items']).name
        elif t == 'date': f.default = '20%02d-%02d-%02d' % (r.randint(0, 30), r.randint(1, 12), r.randint(1, 28))
    def m_field_limit(s, c, r):
        f = s.fld(c, lambda f: f.type in ('int', 'epoch', 'real', 'text', 'email', 'password', 'blob', 'date', 'bit') and not f.inherit)
        if f is None: return False
        if r.random() < .4:
            # a limit changed just so
            f = s.fld(c, lambda f: f.type == 'real' and f.limits and not f.inherit) or f
            if f.type == 'real' and f.limits:
                i = r.randrange(len(f.limits)); o, v = f.limits[i]; f.limits[i] = (o, near(v, r)); return
        k = r.random()
        if f.limits and k < .3: f.limits.remove(s.pick(f.limits))
        elif f.limits and k < .5: r.shuffle(f.limits)
        elif f.limits and k < .8:
            i = r.randrange(len(f.limits)); o, v = f.limits[i]
            f.limits[i] = (r.choice(['ge', 'gt', 'le', 'lt', 'eq']), v) if r.random() < .5 else (o, '%d' % r.randint(1, 60) if r.random() < .4 else near(v, r) if f.type == 'real' else '%d' % (int(v) ^ (1 << r.randrange(62 if f.type in ('int', 'epoch', 'date') else 5))))
        else: f.limits.append((r.choice(['ge', 'gt', 'le', 'lt', 'eq']), '%d' % r.randint(1, 60)))
    def m_field_ref(s, c, r):
        f = s.fld(c, lambda f: f.ref and not f.inherit)
        if f is None: return False
        if r.random() < .6:
            f[r.choice(['actdel', 'actup'])] = r.choice([None, 'none', 'restrict', 'cascade', 'nullify', 'default'])
        else:
            t = s.pick([(st, x) for st, x in allf(c) if (x.rowid or x.unique) and x.type == f.type and not x.ref and x.of == f.of])
            if t is None: return False
            f.ref = (t[0].name, t[1].name)
            for st, g in allf(c):
                if g.type == 'struct' and g.src == f.name and f in st.fields: g.tgt = t[0].name
    def m_field_unref(s, c, r):
        l = [(st, f) for st, f in allf(c) if not f.inherit and f.type not in ('struct', 'password', 'blob') and not any(g.src == f.name for g in st.fields)]
        x = s.pick(l)
        if x is None: return False
        st, f = x
        if f.ref: f.ref = None; f.actdel = f.actup = None; return
        t = s.pick([(y, z) for y, z in allf(c) if (z.rowid or z.unique) and z.type == f.type and z.of == f.of and not z.ref and z is not f])
        if t is None: return False
        f.ref = (t[0].name, t[1].name)
    def m_unique(s, c, r):
        st = s.pick(c.structs)
        if st.uniques and r.random() < .4: st.uniques.remove(s.pick(st.uniques)); return
        if st.uniques and r.random() < .3: r.shuffle(s.pick(st.uniques)); return
        nat = [f.name for f in st.fields if f.type != 'struct']
        if len(nat) < 2: return False
        st.uniques.append(r.sample(nat, 2))
    # ---- operations
    def m_ins(s, c, r):
        st = s.pick(c.structs)
        if st.ins and any(k == 'insert' for _, its in st.roleops for k, n in its): return False
        st.ins = not st.ins
    def m_op_del(s, c, r):
        st = s.pick(c.structs); q = r.choice((st.updates, st.deletes, st.searches)); u = s.pick(q)
        if u is None: return False
        q.remove(u)
        st.roleops = [(rs, [(k, n) for k, n in its if n is None or n != u.name]) for rs, its in st.roleops]
        st.roleops = [x for x in st.roleops if x[1]]
    def m_op_order(s, c, r):
        st = s.pick(c.structs); r.shuffle(st.updates); r.shuffle(st.deletes); r.shuffle(st.searches)
    def m_op_doc(s, c, r):
        st = s.pick(c.structs); u = s.pick(st.updates + st.deletes + st.searches)
        if u is None: return False
        s.doc(u)
    def m_up(s, c, r):
        st = s.pick(c.structs); u = s.pick(st.updates + st.deletes)
        if u is None: return False
        k = r.random()
        if k < .3 and u.c: u.c.remove(s.pick(u.c))
        elif k < .5 and u.c:
            i = r.randrange(len(u.c)); u.c[i] = (u.c[i][0], s.g.conop([f for f in st.fields if f.name == u.c[i][0]][0], True))
        elif k < .6: r.shuffle(u.c); r.shuffle(u.m)
        elif k < .8 and u.m:
            i = r.randrange(len(u.m)); u.m[i] = (u.m[i][0], r.choice(['set', 'inc', 'dec', 'strset', 'concat']))
        elif k < .9 and len(u.m) > 1: u.m.remove(s.pick(u.m))
        else:
            f = s.pick([f for f in st.fields if f.type != 'struct' and f.name not in [x for x, _ in u.c]])
            if f is None: return False
            u.c.append((f.name, s.g.conop(f, True)))
    def m_up_rename(s, c, r):
        st = s.pick(c.structs); u = s.pick([x for x in st.updates + st.deletes + st.searches if x.name])
        if u is None: return False
        o = u.name; u.name = s.new()
        kind = u.kind or u.type
        st.roleops = [(rs, [(k, u.name if n == o and k == kind else n) for k, n in its]) for rs, its in st.roleops]
    def m_search(s, c, r):
        st = s.pick(c.structs); u = s.pick(st.searches)
        if u is None: return False
        by = dict((x.name, x) for x in c.structs)
        P = [x for x in s.g.paths(by, st) if not x[2]]
        k = r.randrange(8)
        if k == 0 and len(u.terms) > 1: u.terms.remove(s.pick(u.terms))
        elif k == 1 and u.terms:
            i = r.randrange(len(u.terms)); p, f, o = u.terms[i]; u.terms[i] = (p, f, s.g.conop(f, False, u.type))
        elif k == 2: r.shuffle(u.terms)
        elif k == 3 and u.type != 'count':
            if u.order and r.random() < .5:
                i = r.randrange(len(u.order)); u.order[i] = (u.order[i][0], r.choice([None, 'asc', 'desc']))
            else: u.order.append((s.pick(P)[0], r.choice([None, 'asc', 'desc'])))
        elif k == 4: u.limit = r.choice([1, 5, 9, None] + ([u.limit ^ (1 << r.randrange(60))] if u.limit else [])); u.offset = u.offset if u.limit else None
        elif k == 5: u.limit = u.limit or 3; u.offset = r.choice([1, 2, None] + ([u.offset ^ (1 << r.randrange(60))] if u.offset else []))
        elif k == 6 and u.type != 'count': u.distinct = None if u.distinct else ['.']
        elif u.agg: u.agg = (r.choice(['maxrow', 'minrow']), u.agg[1])
        else: return False
