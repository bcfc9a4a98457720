"""Random openradtool configuration models and their .ort text.

The model is the oracle's own record of what was asked for: nothing here looks
at the code under test."""
import random

NUMERIC = ('bit', 'bits', 'date', 'epoch', 'int', 'enum')
TEXT = ('text', 'email', 'password')

SYL = ['ba', 'ce', 'di', 'fo', 'gu', 'ha', 'je', 'ki', 'lo', 'mu', 'na', 'pe', 'qui', 'ro', 'su', 'ta', 've', 'wi', 'xo', 'yu', 'za']

class M(dict):
    __getattr__ = dict.get
    def __setattr__(s, k, v): s[k] = v

class Gen(object):
    def __init__(s, seed, **opt):
        s.r = random.Random(seed)
        s.opt = dict(maxstructs=4, maxfields=7, roles=0.6, evil=0.0, labels=0.3, ops=1.0, docs=0.4, big=0.0)
        s.opt.update(opt)
        s.names = set()
    def p(s, x): return s.r.random() < x
    def name(s, used=None):
        while True:
            n = ''.join(s.r.choice(SYL) for _ in range(s.r.choice((2, 2, 3))))
            if s.p(0.2): n += str(s.r.randint(0, 99))
            u = s.names if used is None else used
            if n not in u and not n.startswith('sqlite'):
                u.add(n); return n
    def text(s):
        r = s.r
        parts = []
        for _ in range(r.randint(0, 6)):
            parts.append(r.choice(['alpha', 'beta', 'Some words.', 'x < y & z', "it's", '100%', 'tab\there', 'a/b', 'semi; colon', '{brace}']
                                  + (['*/', '/*', '\\"quoted\\"', '\\\\', '<b>', '--', '\n', 'line\nbreak', 'é', '`tick${1}`', '*\\/', '?>', '%s', '//'] if s.p(s.opt['evil']) else [])))
        t = ' '.join(parts)
        return t + ' ' if t.endswith('\\') else t
    def ltext(s):
        return s.text() or s.r.choice(['A', 'Label one', 'z'])
    def big(s, lo=-2**63 + 1, hi=2**63 - 1):
        """whole numbers at and around powers of two, of the given range"""
        r = s.r
        while True:
            k = r.random()
            if k < .25: v = r.randint(-100, 100)
            elif k < .5: v = r.choice((1, -1)) * 2**r.randint(0, 63) + r.randint(-2, 2)
            elif k < .6: v = r.choice((lo, hi, lo + 1, hi - 1))
            else: v = r.choice((1, -1)) * r.getrandbits(r.randint(1, 63))
            if lo <= v <= hi: return v
    def rl(s):
        """a decimal number"""
        r = s.r; k = r.random()
        if k < .5: return r.choice(['%d' % r.randint(-50, 50), '%d.%d' % (r.randint(-50, 50), r.randint(0, 99))])
        if k < .7: return '%.*f' % (r.randint(6, 17), r.uniform(-2, 2))
        if k < .85: return '%.*f' % (r.randint(1, 6), r.uniform(-1e9, 1e9))
        return '%.1f' % r.choice((2**53, 1e15, -1e15, 123456789012.0, 1e17))
    def doc(s):
        return s.text() if s.p(s.opt['docs']) else None
    def labels(s):
        d = {}
        if s.p(s.opt['labels']): d[''] = s.ltext()
        for l in ('en', 'fr'):
            if s.p(s.opt['labels'] * 0.6): d[l] = s.ltext()
        return d

    def config(s):
        r = s.r
        c = M(roles=[], enums=[], bits=[], structs=[], hasroles=False)
        # roles
        if s.p(s.opt['roles']):
            c.hasroles = True
            used = set(('all', 'none', 'default'))
            def tree(parent, depth):
                for _ in range(r.randint(1 if depth == 0 else 0, 3 if depth == 0 else 2)):
                    x = M(name=s.name(used), parent=parent, doc=s.doc())
                    c.roles.append(x)
                    if depth < 3 and s.p(0.6): tree(x.name, depth + 1)
            tree(None, 0)
        for _ in range(r.randint(0, 2)):
            used = set()
            e = M(name=s.name(), doc=s.doc(), items=[], isnull=s.labels())
            vals = set()
            auto = s.p(0.3)
            for _ in range(r.randint(1, 5)):
                v = None
                if not auto or s.p(0.3):
                    while v is None or v in vals: v = r.choice([r.randint(0, 9), r.randint(-5, 100), r.randint(-2**31 + 1, 2**31 - 20)])
                    vals.add(v)
                e['items'].append(M(name=s.name(used), value=v, doc=s.doc(), labels=s.labels()))
            mx = max([i.value for i in e['items'] if i.value is not None] + [-1])
            nx = max(mx + 1, 0)
            for i in e['items']:
                i.given = i.value
                if i.value is None:
                    i.value = nx; nx += 1
            c.enums.append(e)
        for _ in range(r.randint(0, 2)):
            used = set()
            b = M(name=s.name(), doc=s.doc(), items=[], isnull=s.labels(), isunset=s.labels())
            for ix in r.sample([0, 1, 2, 3, 31, 32, 33, 62, 63], r.randint(1, 4)):
                b['items'].append(M(name=s.name(used), value=ix, doc=s.doc(), labels=s.labels()))
            c.bits.append(b)
        # structs
        n = r.randint(1, s.opt['maxstructs'])
        for i in range(n):
            st = M(name=s.name(), doc=s.doc(), fields=[], ins=False, updates=[], deletes=[], searches=[], uniques=[], roleops=[], fn=set())
            if s.p(0.85):
                st.fields.append(M(name=s.name(st.fn), type='int', rowid=True, unique=s.p(0.1), noexport=s.p(0.15), doc=s.doc(), limits=[]))
            for _ in range(r.randint(0 if st.fields else 1, s.opt['maxfields'])):
                st.fields.append(s.field(c, st))
            r.shuffle(st.fields)
            c.structs.append(st)
        # foreign keys and sub-structures
        for i, st in enumerate(c.structs):
            j = None
            for _ in range(r.randint(0, 3)):
                if j is None or s.p(0.7): j = r.randrange(len(c.structs))
                tg = c.structs[j]
                cand = [f for f in tg.fields if (f.rowid or f.unique) and f.type not in ('struct', 'password', 'blob') and not f.ref]
                if not cand: continue
                t = r.choice(cand)
                f = M(name=s.name(st.fn), type=t.type, of=t.of, ref=(tg.name, t.name), null=s.p(0.3), noexport=s.p(0.1), doc=s.doc(), limits=[])
                f.unique = s.p(0.08) and not f.null
                acts = ['none', 'restrict', 'cascade'] + (['nullify', 'default'] if f.null else [])
                if s.p(0.3): f.actup = r.choice(acts)
                if s.p(0.3): f.actdel = r.choice(acts)
                f.inherit = s.p(0.5) and f.type == "int" and not (f.unique or f.null or f.noexport or f.actup or f.actdel or f.doc is not None)
                st.fields.append(f)
                if j < i and s.p(0.7):
                    sf = M(name=s.name(st.fn), type='struct', src=f.name, tgt=tg.name, null=f.null, noexport=s.p(0.15), doc=s.doc(), limits=[])
                    st.fields.append(sf)
        bystr = dict((x.name, x) for x in c.structs)
        for st in c.structs: s.ops(c, st, bystr)
        if c.hasroles:
            for st in c.structs: s.access(c, st)
        s.r.shuffle(c.structs)
        return c

    def field(s, c, st):
        r = s.r
        t = r.choice(['bit', 'blob', 'date', 'email', 'epoch', 'int', 'int', 'password', 'real', 'text', 'text', 'enum', 'bits'])
        of = None
        if t == 'enum':
            if not c.enums: t = 'int'
            else: of = r.choice(c.enums).name
        if t == 'bits':
            if not c.bits: t = 'int'
            else: of = r.choice(c.bits).name
        f = M(name=s.name(st.fn), type=t, of=of, doc=s.doc(), limits=[])
        f.null = s.p(0.25)
        f.noexport = s.p(0.2)
        f.unique = s.p(0.15) and not f.null
        if s.p(0.3) and t not in ('enum', 'bits'):
            seen = set()
            for _ in range(r.randint(1, 3)):
                op = r.choice(('ge', 'gt', 'le', 'lt', 'eq'))
                if t == 'real': v = s.rl()
                elif t in ('text', 'email', 'password', 'blob'): v = '%d' % r.randint(0, 64)
                elif t in ('bit',): v = '%d' % r.randint(0, 64)
                else: v = '%d' % r.choice([r.randint(-100, 100), r.randint(0, 2**40), -r.randint(0, 2**40), s.big()])
                key = float(v) if t == 'real' else int(v)
                if (op, key) in seen: continue
                seen.add((op, key))
                f.limits.append((op, v))
        if s.p(0.25):
            if t in ('int', 'epoch', 'bit', 'bits'): f.default = '%d' % r.choice([r.randint(-100, 100) if t == 'int' else r.randint(0, 60), r.randint(0, 2**40) if t not in ('bit',) else 3, s.big() if t in ('int', 'epoch') else 5])
            elif t == 'real': f.default = s.rl()
            elif t in ('text', 'email'): f.default = '"' + s.r.choice(['abc', "it's", 'a b', '', 'x\\"y', 'semi;colon', "''", "--"]) + '"'
            elif t == 'enum': f.default = r.choice([e for e in c.enums if e.name == of][0]['items']).name
            elif t == 'date': f.default = '%04d-%02d-%02d' % (r.randint(1971, 2037), r.randint(1, 12), r.randint(1, 28))
        return f

    # ------------------------------------------------------------------ operations
    def paths(s, bystr, st, depth=0):
        """(path, field, nullable sub-structure on the way)"""
        out = []
        for f in st.fields:
            if f.type == 'struct':
                if depth < 3:
                    for p, g, nl in s.paths(bystr, bystr[f.tgt], depth + 1): out.append(([f.name] + p, g, nl or bool(f.null)))
            else: out.append(([f.name], f, False))
        return out

    def conop(s, f, update, stype=None):
        r = s.r
        t = f.type
        ops = ['eq', 'eq', 'eq', 'neq', 'lt', 'gt', 'le', 'ge', 'streq', 'strneq']
        if t in ('bit', 'bits', 'int'): ops += ['and', 'or']
        if t in ('text', 'email'): ops += ['like']
        if f.null: ops += ['isnull', 'notnull']
        if t == 'password':
            ops = ['streq', 'strneq']
            if not update and stype != 'count': ops += ['eq', 'neq']
            if f.null: ops += ['isnull', 'notnull']
        return r.choice(ops)

    def ops(s, c, st, bystr):
        r = s.r
        nat = [f for f in st.fields if f.type != 'struct']
        upn = set(); sen = set()
        st.ins = s.p(0.7)
        sigs = set()
        for kind, q in (('update', st.updates), ('delete', st.deletes)):
            for _ in range(int(r.randint(0, 3) * s.opt['ops'])):
                u = M(kind=kind, m=[], c=[], name=None, doc=None)
                if kind == 'update' and s.p(0.85):
                    for f in r.sample(nat, min(len(nat), r.randint(1, 3))):
                        if f.rowid and s.p(0.8): continue
                        mods = ['set', 'set', 'set']
                        if f.type in ('bit', 'bits', 'int', 'epoch', 'date', 'real', 'enum') : mods += ['inc', 'dec']
                        if f.type in ('text', 'email', 'blob'): mods += ['concat']
                        if f.type == 'password': mods += ['strset']
                        if f.type == 'enum' or f.type in ('bit', 'bits'): mods = ['set']
                        u.m.append((f.name, r.choice(mods)))
                for f in r.sample(nat, min(len(nat), r.randint(0, 3))):
                    u.c.append((f.name, s.conop(f, True)))
                if kind == 'update' and not u.m and not nat: continue
                if kind == 'update' and not [f for f in nat if not f.rowid] and not u.m: continue
                u.name = s.name(upn)
                if s.p(0.3):
                    sg = (kind, tuple(sorted(x for x, _ in u.m)), tuple(sorted(x for x, _ in u.c)))
                    if sg not in sigs: u.name = None; sigs.add(sg)
                u.doc = s.doc()
                q.append(u)
        P = [x for x in s.paths(bystr, st) if not x[2]]
        ssig = set()
        for _ in range(int(r.randint(0, 4) * s.opt['ops'])):
            if not P: break
            t = r.choice(['search', 'list', 'iterate', 'count'])
            q = M(type=t, terms=[], name=None, doc=s.doc(), order=[], limit=None, offset=None, distinct=None, group=None, agg=None)
            k = r.randint(1 if t == 'search' else 0, 3)
            q.distinct = None
            dpaths = [[f.name] for f in st.fields if f.type == 'struct' and not f.null]
            if s.p(0.2) and t != 'count' or (t == 'count' and s.p(0.1)):
                q.distinct = ['.'] if not dpaths or s.p(0.5) else r.choice(dpaths)
            for pth, f, nl in r.sample(P, min(len(P), k)):
                op = s.conop(f, False, t)
                if f.type == 'password' and q.distinct and op in ('eq', 'neq'): op = 'streq'
                q.terms.append((pth, f, op))
            if t == 'search' and not q.terms: continue
            if t == 'search':
                q.limit = 1
            elif s.p(0.3): q.limit = s.big(1) if s.p(0.2) else r.randint(1, 100)
            if q.limit is not None and s.p(0.3): q.offset = s.big(1) if s.p(0.2) else r.randint(1, 50)
            if t != 'count' and s.p(0.4):
                for pth, f, nl in r.sample(P, min(len(P), r.randint(1, 2))):
                    q.order.append((pth, r.choice([None, 'asc', 'desc'])))
            if t in ('list', 'iterate') and s.p(0.12) and not q.distinct:
                gp = [x for x in P if not x[1].null and not x[2] and x[1].type != 'password']
                if len(gp) >= 2:
                    a, b = r.sample(gp, 2)
                    if a[0][:-1] != b[0][:-1]: continue
                    q.group = a[0]; q.agg = (r.choice(['maxrow', 'minrow']), b[0])
            q.name = s.name(sen)
            sg = (t == 'count', t, tuple(sorted('.'.join(x) + y for x, _, y in q.terms)))
            if s.p(0.25) and sg not in ssig and q.terms and not q.distinct and not q.group: 
                ssig.add(sg); q.name = None
            st.searches.append(q)
        if len(nat) >= 2 and s.p(0.3):
            st.uniques.append([f.name for f in r.sample(nat, r.randint(2, min(3, len(nat))))])

    def antichain(s, c):
        """random pairwise unrelated role set (names, maybe default/all)"""
        r = s.r
        if s.p(0.08): return ['all']
        cand = [x.name for x in c.roles] + ['default']
        r.shuffle(cand)
        par = dict((x.name, x.parent) for x in c.roles)
        def anc(a):
            o = set()
            while a: o.add(a); a = par.get(a)
            return o
        out = []
        for x in cand[:r.randint(1, 3)]:
            if all(x not in anc(y) and y not in anc(x) for y in out): out.append(x)
        return out

    def access(s, c, st):
        """list of (roles, [(kind, name)]) blocks"""
        r = s.r
        ops = []
        if st.ins: ops.append(('insert', None))
        ops += [('update', u.name) for u in st.updates if u.name]
        ops += [('delete', u.name) for u in st.deletes if u.name]
        ops += [(q.type, q.name) for q in st.searches if q.name]
        blocks = []; seen = set()
        for _ in range(r.randint(0, 3)):
            rs = s.antichain(c)
            its = r.sample(ops, r.randint(0, min(3, len(ops))))
            if s.p(0.3): its.append(('noexport', r.choice(st.fields).name))
            if s.p(0.12): its.append(('noexport', None))
            if s.p(0.15): its.append(('all', None))
            r.shuffle(its)
            it2 = []
            for k, n in its:
                if any((k, n, x) in seen for x in rs): continue
                if k == 'noexport' and any((k2, x2) == ('noexport', x) for k2, n2, x2 in seen for x in rs if n is None or n2 is None): continue
                for x in rs: seen.add((k, n, x))
                it2.append((k, n))
            if it2: blocks.append((rs, it2))
        st.roleops = blocks

# ---------------------------------------------------------------------- text
def q(t): return '"' + t + '"'

def prlabels(d, r=None):
    return ''.join(' jslabel%s %s' % ('.' + l if l else '', q(t)) for l, t in d.items())

def tterm(p): return '.'.join(p)

class Out(object):
    """lines of text, remembering where each object's keyword or name ends"""
    def __init__(s): s.t = []; s.line = 1; s.where = {}
    def add(s, text, *keys):
        for key, tok in keys:
            i = text.index(tok) + len(tok)
            pre = text[:i]
            nl = pre.count('\n')
            s.where[key] = (s.line + nl, len(pre.rsplit('\n', 1)[-1].encode('utf-8', 'surrogateescape')))
        s.t.append(text); s.line += text.count('\n') + 1

def to_ort(c, where=None):
    o = Out()
    if where is not None: o.where = where
    if c.hasroles:
        o.add('roles {')
        def tree(par, ind):
            for x in c.roles:
                if x.parent != par: continue
                kids = [y for y in c.roles if y.parent == x.name]
                d = ' comment ' + q(x.doc) if x.doc is not None else ''
                k = (('role', x.name), 'role ' + x.name)
                if kids:
                    o.add('%srole %s%s {' % (ind, x.name, d), k); tree(x.name, ind + '\t'); o.add('%s};' % ind)
                else: o.add('%srole %s%s;' % (ind, x.name, d), k)
        tree(None, '\t')
        o.add('};')
    for e in c.enums:
        o.add('enum %s {' % e.name, (('enum', e.name), 'enum ' + e.name))
        if e.doc is not None: o.add('\tcomment %s;' % q(e.doc))
        for i in e['items']:
            o.add('\titem %s%s%s%s;' % (i.name, ' %d' % i.given if i.given is not None else '', ' comment ' + q(i.doc) if i.doc is not None else '', prlabels(i.labels)),
                  (('eitem', e.name, i.name), 'item ' + i.name))
        if e.isnull: o.add('\tisnull%s;' % prlabels(e.isnull))
        o.add('};')
    for e in c.bits:
        o.add('bits %s {' % e.name, (('bits', e.name), 'bits ' + e.name))
        if e.doc is not None: o.add('\tcomment %s;' % q(e.doc))
        for i in e['items']:
            o.add('\titem %s %d%s%s;' % (i.name, i.value, ' comment ' + q(i.doc) if i.doc is not None else '', prlabels(i.labels)),
                  (('bitidx', e.name, i.name), 'item ' + i.name))
        if e.isunset: o.add('\tisunset%s;' % prlabels(e.isunset))
        if e.isnull: o.add('\tisnull%s;' % prlabels(e.isnull))
        o.add('};')
    for st in c.structs:
        o.add('struct %s {' % st.name, (('struct', st.name), 'struct ' + st.name))
        if st.doc is not None: o.add('\tcomment %s;' % q(st.doc))
        for f in st.fields: o.add('\t' + fieldtext(f), (('field', st.name, f.name), 'field ' + f.name))
        if st.ins: o.add('\tinsert;', (('insert', st.name), 'insert'))
        for k, us in (('update', st.updates), ('delete', st.deletes)):
            for n, u in enumerate(us): o.add('\t' + optext(u), ((k, st.name, n), k))
        for n, s in enumerate(st.searches): o.add('\t' + searchtext(s), (('search', st.name, n), s.type))
        for n, u in enumerate(st.uniques): o.add('\tunique %s;' % ', '.join(u), (('unique', st.name, n), 'unique'))
        for rs, its in st.roleops:
            o.add('\troles %s { %s };' % (', '.join(rs), ' '.join('%s%s;' % (k, ' ' + n if n else '') for k, n in its)))
        o.add('};')
    return '\n'.join(o.t) + '\n'

def fieldtext(f):
    t = 'field ' + f.name
    if f.ref: t += ':%s.%s' % f.ref
    if f.type == 'struct': t += ' struct ' + f.src
    elif f.type in ('enum', 'bits'):
        if not f.inherit: t += ' %s %s' % (f.type, f.of)
    elif not f.inherit: t += ' ' + f.type
    for k in ('rowid', 'unique', 'null', 'noexport'):
        if f.get(k) and not (k == 'null' and f.type == 'struct'): t += ' ' + k
    for op, v in f.limits: t += ' limit %s %s' % (op, v)
    if f.default is not None: t += ' default ' + f.default
    if f.actup: t += ' actup ' + f.actup
    if f.actdel: t += ' actdel ' + f.actdel
    if f.doc is not None: t += ' comment ' + q(f.doc)
    return t + ';'

def optext(u):
    def fl(x): return ', '.join(n + (' ' + o if o not in ('eq', 'set') else '') for n, o in x)
    t = u.kind
    parms = ''
    if u.name: parms += ' name ' + u.name
    if u.doc is not None: parms += ' comment ' + q(u.doc)
    if u.kind == 'update':
        if u.m: t += ' ' + fl(u.m)
        if u.c or parms: t += ': ' + fl(u.c)
    else:
        if u.c: t += ' ' + fl(u.c)
    if parms: t += ':' + parms
    return t + ';'

def searchtext(s):
    t = s.type
    if s.terms: t += ' ' + ', '.join(tterm(p) + (' ' + o if o != 'eq' else '') for p, _, o in s.terms)
    parms = ''
    if s.name: parms += ' name ' + s.name
    if s.distinct: parms += ' distinct ' + tterm(s.distinct)
    if s.group: parms += ' grouprow %s %s %s' % (tterm(s.group), s.agg[0], tterm(s.agg[1]))
    if s.order: parms += ' order ' + ', '.join(tterm(p) + (' ' + d if d else '') for p, d in s.order)
    if s.limit is not None: parms += ' limit %d' % s.limit + (', %d' % s.offset if s.offset is not None else '')
    if s.doc is not None: parms += ' comment ' + q(s.doc)
    if parms: t += ':' + parms
    return t + ';'

if __name__ == '__main__':
    import sys
    print(to_ort(Gen(int(sys.argv[1])).config()))
