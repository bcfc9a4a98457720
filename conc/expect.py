"""What a configuration means: an independent reading of ort(5) for the models
of model.py, in the shape of ort-json's output (so all outputs can be compared
with it)."""
import re, calendar

FT = {'bits': 'bitfield'}

def unq(t):
    """value of a string literal: \\" is a quote, nothing else is special"""
    return t.replace('\\"', '"')

def g17(x): return '%.17g' % float(x)

def defval(c, f):
    if f.default is None: return None
    if f.type in ('bit', 'bits', 'int', 'epoch'): return '%d' % int(f.default)
    if f.type == 'real': return g17(f.default)
    if f.type in ('text', 'email'): return unq(f.default[1:-1])
    if f.type == 'enum': return f.default
    if f.type == 'date':
        y, m, d = map(int, f.default.split('-'))
        return '%d' % calendar.timegm((y, m, d, 0, 0, 0))
    raise ValueError(f.type)

def limval(f, v):
    if f.type == 'real': return g17(v)
    return '%d' % int(v)

def structof(c, n): return [x for x in c.structs if x.name == n][0]
def fieldof(st, n): return [x for x in st.fields if x.name == n][0]

def chain(c, st, path):
    """the fields a dotted path goes through"""
    out = []
    for k, n in enumerate(path):
        f = fieldof(st, n); out.append((st, f))
        if k + 1 < len(path): st = structof(c, f.tgt)
    return out

def labels(d): return dict((k or '_default', unq(v)) for k, v in d.items())

def granted(st):
    """roles given to each operation and each field export, by ort(5)"""
    ops = {}; fld = {}; stm = {}
    for rs, its in st.roleops:
        for k, n in its:
            stm.setdefault((k, n), set()).update(rs)
            if k == 'noexport':
                for f in st.fields:
                    if n is None or f.name == n: fld.setdefault(f.name, set()).update(rs)
            elif k == 'all':
                if st.ins: ops.setdefault(('insert', None), set()).update(rs)
                for q in ('updates', 'deletes', 'searches'):
                    for i, u in enumerate(st[q]): ops.setdefault((q, i), set()).update(rs)
            elif k == 'insert': ops.setdefault(('insert', None), set()).update(rs)
            else:
                q = {'update': 'updates', 'delete': 'deletes'}.get(k, 'searches')
                for i, u in enumerate(st[q]):
                    if u.name == n and (q != 'searches' or u.type == k): ops.setdefault((q, i), set()).update(rs)
    return ops, fld, stm

def ancestors(c, name):
    """the role and everything above it"""
    par = dict((x.name, x.parent or 'all') for x in c.roles)
    out = [name]
    while name in par: name = par[name]; out.append(name)
    return out

def allowed(c, role, roles):
    """may `role` do what was assigned to `roles`?  The roles declared by the
    configuration descend from all; default and none do not."""
    return bool(set(ancestors(c, role)) & set(roles))

def expect(c, where=None):
    W = where or {}
    def pos(*k): return W.get(k)
    j = {'rq': None, 'eq': {}, 'bq': {}, 'sq': {}}
    if c.hasroles:
        r = j['rq'] = {}
        for n in ('none', 'default', 'all'):
            r[n] = dict(name=n, parent=None, doc=None, subrq=[x.name for x in c.roles if x.parent is None] if n == 'all' else [], pos=None)
        for x in c.roles:
            r[x.name] = dict(name=x.name, parent=x.parent or 'all', doc=None if x.doc is None else unq(x.doc), subrq=[y.name for y in c.roles if y.parent == x.name], pos=pos('role', x.name))
    for e in c.enums:
        j['eq'][e.name] = dict(name=e.name, doc=None if e.doc is None else unq(e.doc), labelsNull=labels(e.isnull), pos=pos('enum', e.name), eq=dict(
            (i.name, dict(name=i.name, parent=e.name, doc=None if i.doc is None else unq(i.doc), labels=labels(i.labels), value=None if i.given is None else '%d' % i.value, pos=pos('eitem', e.name, i.name))) for i in e['items']))
    for e in c.bits:
        j['bq'][e.name] = dict(name=e.name, doc=None if e.doc is None else unq(e.doc), labelsNull=labels(e.isnull), labelsUnset=labels(e.isunset), pos=pos('bits', e.name), bq=dict(
            (i.name, dict(name=i.name, parent=e.name, doc=None if i.doc is None else unq(i.doc), labels=labels(i.labels), value='%d' % i.value, mask='%d' % (1 << i.value), pos=pos('bitidx', e.name, i.name))) for i in e['items']))
    for st in c.structs:
        ops, fld, stm = granted(st)
        s = j['sq'][st.name] = dict(name=st.name, doc=None if st.doc is None else unq(st.doc), pos=pos('struct', st.name), fq={}, insert=None, nq=[])
        for f in st.fields:
            fl = [k for k in ('rowid', 'unique', 'noexport', 'null') if f.get(k) and not (k == 'unique' and f.rowid)]
            d = s['fq'][f.name] = dict(name=f.name, parent=st.name, doc=None if f.doc is None else unq(f.doc), type=FT.get(f.type, f.type), flags=sorted(fl),
                     actup=f.actup or 'none', actdel=f.actdel or 'none', rolemap=sorted(fld.get(f.name, ())), **{'def': defval(c, f)},
                     fvq=[dict(type=o, limit=limval(f, v)) for o, v in f.limits], pos=pos('field', st.name, f.name))
            if f.type == 'enum': d['enm'] = f.of
            if f.type == 'bits': d['bitf'] = f.of
            if f.ref: d['ref'] = dict(target=dict(strct=f.ref[0], field=f.ref[1]), source=dict(strct=st.name, field=f.name))
            if f.type == 'struct':
                src = fieldof(st, f.src)
                d['ref'] = dict(target=dict(strct=src.ref[0], field=src.ref[1]), source=dict(strct=st.name, field=f.src))
                d['flags'] = sorted(set(fl) - {'null'})
        if st.ins: s['insert'] = dict(pos=pos('insert', st.name), rolemap=sorted(ops.get(('insert', None), ())))
        s['rq'] = {}
        for (k, n), v in stm.items():
            # the linked statement of an operation carries all its roles
            if k == 'insert': v = ops[(k, None)]
            elif k in ('update', 'delete'): v = ops[(k + 's', [u.name for u in st[k + 's']].index(n))]
            elif k == 'noexport': v = fld[n] if n else v
            elif k != 'all': v = ops[('searches', [(u.type, u.name) for u in st.searches].index((k, n)))]
            s['rq']['%s %s' % (k, n)] = sorted(v)
        s['nq'] = [dict(nq=sorted(u), pos=pos('unique', st.name, i)) for i, u in enumerate(st.uniques)]
        def upd(kind, i, u):
            m = u.m if kind == 'update' else []
            allf = kind == 'update' and not u.m
            if allf: m = [(f.name, 'set') for f in st.fields if f.type != 'struct' and not f.rowid]
            return dict(name=u.name, parent=st.name, type=kind, doc=None if u.doc is None else unq(u.doc), pos=pos(kind, st.name, i),
                        flags=['all'] if allf else [], rolemap=sorted(ops.get((kind + 's', i), ())),
                        mrq=[dict(field=n, op='eq', mod=o) for n, o in m], crq=[dict(field=n, op=o, mod='set') for n, o in u.c])
        for key, kind, q in (('uq', 'update', st.updates), ('dq', 'delete', st.deletes)):
            s[key] = dict(named={}, anon=[])
            for i, u in enumerate(q):
                x = upd(kind, i, u)
                if u.name: s[key]['named'][u.name] = x
                else: s[key]['anon'].append(x)
        s['sq'] = dict(named={}, anon=[])
        for i, u in enumerate(st.searches):
            def ch(p): return ['%s.%s' % (a.name, b.name) for a, b in chain(c, st, p)]
            x = dict(name=u.name, parent=st.name, type=u.type, doc=None if u.doc is None else unq(u.doc), pos=pos('search', st.name, i),
                     rolemap=sorted(ops.get(('searches', i), ())), limit='%d' % (u.limit or 0), offset='%d' % (u.offset or 0),
                     sntq=[dict(fname='.'.join(p), uname='_'.join(p), chain=ch(p), op=o, field=dict(strct=chain(c, st, p)[-1][0].name, field=f.name)) for p, f, o in u.terms],
                     ordq=[dict(fname='.'.join(p), chain=ch(p), op=o or 'asc') for p, o in u.order],
                     aggr=dict(fname='.'.join(u.agg[1]), chain=ch(u.agg[1]), op=u.agg[0]) if u.agg else None,
                     group=dict(fname='.'.join(u.group), chain=ch(u.group)) if u.group else None, dst=None)
            if u.distinct:
                if u.distinct == ['.']: x['dst'] = dict(strct=st.name, fname='.', chain=[])
                else: x['dst'] = dict(strct=chain(c, st, u.distinct)[-1][1].tgt, fname='.'.join(u.distinct), chain=ch(u.distinct))
            if u.name: s['sq']['named'][u.name] = x
            else: s['sq']['anon'].append(x)
    return j

class Dup(Exception): pass
def nodup(pairs):
    d = {}
    for k, v in pairs:
        if k in d: raise Dup('duplicate key %r' % k)
        d[k] = v
    return d

def canon(j, poskeep=False):
    """ort-json's parsed output in expect()'s shape"""
    def p(d):
        if not poskeep: d.pop('pos', None)
        elif d.get('pos') is not None: d['pos'] = (d['pos']['line'], d['pos']['column'])
        return d
    def lab(d): return dict((k, v['value']) if v['lang'] == k else (k, 'LANG ' + v['lang']) for k, v in d.items())
    c = j['config']
    for r in (c['rq'] or {}).values(): p(r)
    for n in ('none', 'default', 'all'):
        if c['rq'] and poskeep: c['rq'][n]['pos'] = None
    for e in c['eq'].values():
        p(e); e['labelsNull'] = lab(e['labelsNull'])
        for i in e['eq'].values(): p(i); i['labels'] = lab(i['labels'])
    for e in c['bq'].values():
        p(e); e['labelsNull'] = lab(e['labelsNull']); e['labelsUnset'] = lab(e['labelsUnset'])
        for i in e['bq'].values(): p(i); i['labels'] = lab(i['labels'])
    for s in c['sq'].values():
        p(s)
        for f in s['fq'].values(): p(f); f['flags'] = sorted(f['flags']); f['rolemap'] = sorted(f['rolemap'])
        if s['insert']: p(s['insert']); s['insert']['rolemap'] = sorted(s['insert']['rolemap'])
        rq = {}
        for r in s['rq']:
            k = '%s %s' % (r['type'], r['name'])
            if k in rq: rq[k] = 'DUPLICATE'
            else: rq[k] = sorted(r['rq'])
        s['rq'] = rq
        for u in s['nq']: p(u); u['nq'] = sorted(u['nq'])
        def sub(x):
            if x is None: return
            for y in (x if isinstance(x, list) else [x]): y.pop('pos', None)
        for q in ('uq', 'dq', 'sq'):
            for x in list(s[q]['named'].values()) + s[q]['anon']:
                p(x); x['rolemap'] = sorted(x['rolemap'])
                for k in ('mrq', 'crq', 'sntq', 'ordq', 'aggr', 'group', 'dst'): sub(x.get(k))
    return c

def diff(x, y, path='', lim=5, ordered=('fq', 'eq', 'bq', 'rq', 'named')):
    """differences between expectation x and actual y"""
    if type(x) != type(y): return ['%s: expected %r, got %r' % (path, x, y)]
    if isinstance(x, dict):
        o = []
        for k in list(x) + [k for k in y if k not in x]:
            if k not in y: o.append('%s.%s: missing (expected %s)' % (path, k, str(x[k])[:80]))
            elif k not in x: o.append('%s.%s: unexpected %s' % (path, k, str(y[k])[:80]))
            else: o += diff(x[k], y[k], path + '.' + str(k), lim, ordered)
            if len(o) > lim: return o
        if not o and path.rsplit('.', 1)[-1] in ordered and list(x) != list(y): o.append('%s: order %s expected, got %s' % (path, list(x), list(y)))
        return o
    if isinstance(x, list):
        if len(x) != len(y): return ['%s: expected %s, got %s' % (path, str(x)[:200], str(y)[:200])]
        o = []
        for k, (u, v) in enumerate(zip(x, y)):
            o += diff(u, v, '%s[%d]' % (path, k), lim, ordered)
            if len(o) > lim: break
        return o
    return [] if x == y else ['%s: expected %r, got %r' % (path, x, y)]
