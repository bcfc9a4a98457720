"""lang.c: the statements of searches, insertions, updates and deletions (P21)"""
from common import *
import libc
F = 'lang.c'
LANGS = dict(C='LANG_C', JS='LANG_JS', RUST='LANG_RUST')
DELIM = dict(C='"', JS="'", RUST='"')
QUOTE = dict(C='', JS="'", RUST='"')
SPACER = dict(C='', JS='+ ', RUST='+ ')
def blank(eng, st, a, n):
    """contract of gen_ws: writes blanks only"""
    return [(z3.BitVecVal(1, 32), st)]
def name(d, x): return d.rd(x, 'field', 'name')
def sname(d, p): return d.rd(p, 'strct', 'name')
def ref(d, x):
    r = d.rd(x, 'field', 'ref')
    return d.rd(r, 'ref', 'source'), d.rd(r, 'ref', 'target')
def joined(d, x):
    """structures which are not optional are selected and joined"""
    r = d.rd(x, 'field', 'ref')
    return z3.And(d.is_(x, 'field', 'type', 'FTYPE_STRUCT'), z3.Not(d.flag(d.rd(r, 'ref', 'source'), 'field', 'flags', 'FIELD_NULL')))
def caseeq(d, x, y): return d.eng.lower(d.eng.content(x)) == d.eng.lower(d.eng.content(y))
def alias(d, orig, nm): return d.first('aliasq', d.rd(orig, 'strct', 'aq'), lambda a: caseeq(d, d.rd(a, 'alias', 'name'), nm))

# ---------------------------------------------------------------- statement names
def camel(d, s): 
    d.chr(z3.ZeroExt(24, up(d, s))); d.str(s + 1)
def up(d, s):
    c = d.char(s)
    return z3.If(z3.And(z3.ULE(97, c), z3.ULE(c, 122)), c - 32, c)
def s_enum(cname, rname, idx):
    def mk(L):
        def f(d, f, defn, p, *a):
            nm = sname(d, p)
            if L == 'RUST':
                if d.c(defn != 0): d.lit('Ortstmt::')
                camel(d, nm); d.lit(rname)
            else: d.lit('STMT_'); d.str(nm); d.lit(cname)
            if idx: d.num('u', a[0])
        return f
    return mk
def s_enum_unique(L):
    def f(d, f, defn, fd, lang):
        nm = sname(d, d.rd(fd, 'field', 'parent'))
        if L == 'RUST':
            if d.c(defn != 0): d.lit('Ortstmt::')
            camel(d, nm); d.lit('ByUnique'); camel(d, name(d, fd))
        else: d.fmt('STMT_%s_BY_UNIQUE_%s', nm, name(d, fd))
    return f
def perlang(fn, mk, contracts=None, **k):
    """the same contract for each target language"""
    for L in LANGS:
        def req(d, *a, L=L, r=k.get('requires')): return [a[li] == d.const(LANGS[L]) for li in [li_of[fn]]] + (r(d, *a) if r else [])
        kw = dict(k); kw['requires'] = req
        con = dict((c, emits(c)) for c in (contracts or ()))
        con.update(gen_ws=blank); con.update(kw.pop('con', {}))
        kw = dict(dict(ws='sp', rcs=True, forms=True), **kw)
        rq = kw.pop('requires'); rk = kw.pop('retok', ok)
        @proof('lang:%s.%s' % (fn, L), F, [fn], con, **kw)
        def run(m, L=L, rq=rq, rk=rk):
            e = m()
            fd, vals, st = e.start(fn, F)
            pn = fd.params[li_of[fn]].a.get('name', '_')
            check_emit(e, fn, F, mk(L), requires=rq, args={pn: z3.BitVecVal(e.prog.enums[LANGS[L]], 32)}, retok=rk)
li_of = dict(gen_enum_insert=3, gen_enum_update=4, gen_enum_delete=4, gen_enum_query=4, gen_enum_unique=3, gen_sql_stmt_schema=2, gen_sql_stmt_join=2, gen_sql_stmts=3, gen_sql_enums=3, gen_ws=2)
perlang('gen_ws', lambda L: lambda d, *a: None, ws=True)
noneg = lambda d, v, r: v >= 0
perlang('gen_enum_insert', s_enum('_INSERT', 'Insert', False), retok=noneg)
perlang('gen_enum_update', s_enum('_UPDATE_', 'Update', True), retok=noneg)
perlang('gen_enum_delete', s_enum('_DELETE_', 'Delete', True), retok=noneg)
perlang('gen_enum_query', s_enum('_BY_SEARCH_', 'BySearch', True), retok=noneg)
perlang('gen_enum_unique', s_enum_unique, retok=noneg)
def s_enums(L):
    def f(d, f, tabs, p, lang):
        c = lambda nm, *a: (d.call(nm, f, 0, *a), d.lit(', '))
        def u(d, x, i):
            if d.c(d.flag(x, 'field', 'flags', 'FIELD_UNIQUE', 'FIELD_ROWID')): d.call('gen_enum_unique', f, 0, x, lang); d.lit(', ')
        d.each('fieldq', d.rd(p, 'strct', 'fq'), u)
        def q(nm):
            def one(d, s, i): d.call(nm, f, 0, p, n2b(i, 64), lang); d.lit(', ')
            return one
        d.each('searchq', d.rd(p, 'strct', 'sq'), q('gen_enum_query'))
        if d.c(d.rd(p, 'strct', 'ins') != 0): d.call('gen_enum_insert', f, 0, p, lang); d.lit(', ')
        d.each('updateq', d.rd(p, 'strct', 'uq'), q('gen_enum_update'))
        d.each('updateq', d.rd(p, 'strct', 'dq'), q('gen_enum_delete'))
    return f
ENUMS = ['gen_enum_' + x for x in ('insert', 'update', 'delete', 'query', 'unique')]
perlang('gen_sql_enums', s_enums, ENUMS)

# ---------------------------------------------------------------- columns and joins
ALIASED = z3.Function('aliased', I, I, I, z3.BoolSort())
def pathc(eng, pre): return z3.If(pre == 0, z3.IntVal(-7), eng.lower(eng.content(pre)))
def aliased(d, orig, p, pre):
    """every structure nested in p, at the path pre within orig, has an alias (P16)"""
    eng = d.eng
    PATH = z3.Function('form.%s.%s', I, I, I)
    j = fresh('ix', I); h = d.rd(p, 'strct', 'fq'); x = d.at('fieldq', h, j)
    n = len(d.s0.pc)
    nm = eng.lower(eng.content(name(d, x)))
    pc = z3.If(pre == 0, nm, PATH(eng.lower(eng.content(pre)), nm))
    b = z3.Implies(joined(d, x), z3.And(d.exists('aliasq', d.rd(orig, 'strct', 'aq'), lambda a: eng.lower(eng.content(d.rd(a, 'alias', 'name'))) == pc),
        ALIASED(orig, d.rd(ref(d, x)[1], 'field', 'parent'), pc)))
    b = d.closefacts(n, j, b)
    return z3.Implies(ALIASED(orig, p, pathc(eng, pre)), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < d.len('fieldq', h)), b), patterns=[x]))
def get(eng, st, p): return eng.rdmem(st, p, 'unsigned long') if z3.is_expr(p) else eng.load(p, 'size_t', st)
def put(eng, st, p, v):
    if z3.is_expr(p): eng.wr(st, eng.memkey('unsigned long'), p, v, 'unsigned long')
    else: eng.store(p, 'size_t', v, st)
def c_schema(eng, st, a, n):
    st.emit(('call', 'gen_sql_stmt_schema', tuple(a)))
    d = D(eng, [], []); d.s0 = st
    eng.oblige(st, ALIASED(a[3], a[5], pathc(eng, a[6])), 'nested structures have aliases', n.line)
    eng.oblige(st, z3.Implies(a[6] != 0, hasalias(d, a[3], a[6])), 'the structure has an alias', n.line)
    put(eng, st, a[7], fresh('col', z3.BitVecSort(64)))      # the column is layout
    return [(z3.BitVecVal(1, 32), st)]
def hasalias(d, orig, nm): return d.exists('aliasq', d.rd(orig, 'strct', 'aq'), lambda a: caseeq(d, d.rd(a, 'alias', 'name'), nm))
def r_schema(d, f, tabs, lang, orig, first, p, pname, col):
    return [aliased(d, orig, p, pname), ALIASED(orig, p, pathc(d.eng, pname)), z3.Implies(pname != 0, hasalias(d, orig, pname))]
def s_schema(L):
    def f(d, f, tabs, lang, orig, first, p, pname, col):
        dl = DELIM[L]
        if d.c(first != 0): d.lit(dl + ' ')
        else: d.lit('%s%s,%s ' % (SPACER[L], dl, dl))
        d.fmt(dict(C='DB_SCHEMA_%s(', RUST='+ &stmt_%s(', JS='+ ort_schema_%s(')[L], sname(d, p))
        d.lit(QUOTE[L])
        if d.c(pname != 0): 
            a = alias(d, orig, pname); d.str(d.rd(a, 'alias', 'alias'))
        else: d.str(sname(d, p))
        d.lit(QUOTE[L] + ') ')
        def one(d, x, i):
            if not d.c(joined(d, x)): return
            nm = form(d, '%s.%s', pname, name(d, x)) if d.c(pname != 0) else name(d, x)
            d.call('gen_sql_stmt_schema', f, tabs, lang, orig, 0, d.rd(ref(d, x)[1], 'field', 'parent'), nm, None)
        d.each('fieldq', d.rd(p, 'strct', 'fq'), one)
    return f
perlang('gen_sql_stmt_schema', s_schema, con=dict(gen_sql_stmt_schema=c_schema), requires=r_schema)

BIG = 2 ** 63
def c_join(eng, st, a, n):
    """the count becomes non-zero exactly if something is joined (and never wraps)"""
    st.emit(('call', 'gen_sql_stmt_join', tuple(a)))
    v = get(eng, st, a[6])
    d = D(eng, [], []); d.s0 = st
    k = fresh('joins', z3.BitVecSort(64))
    j = d.exists('fieldq', d.rd(a[4], 'strct', 'fq'), lambda x: joined(d, x))
    if st.gh.get('JP') is not None: eng.oblige(st, z3.ULT(v, BIG), 'the count of joins is small', n.line)
    eng.oblige(st, ALIASED(a[3], a[4], z3.If(a[5] == 0, z3.IntVal(-7), eng.lower(eng.content(d.rd(a[5], 'alias', 'name'))))), 'nested structures have aliases', n.line)
    st.pc += [z3.ULT(k, BIG), (k == 0) == z3.And(v == 0, z3.Not(j))]
    put(eng, st, a[6], k)
    return [(z3.BitVecVal(1, 32), st)]
def s_join(L):
    def f(d, f, tabs, lang, orig, p, parent, cnt):
        h = d.rd(p, 'strct', 'fq')
        c0 = get(d.eng, d.s0, cnt)
        def one(d, x, i):
            if not d.c(joined(d, x)): return
            nm = form(d, '%s.%s', d.rd(parent, 'alias', 'name'), name(d, x)) if d.c(parent != 0) else name(d, x)
            a = alias(d, orig, nm)
            d.when(z3.And(c0 == 0, z3.Not(before(d, 'fieldq', h, i, lambda y: joined(d, y)))), lambda d: d.lit(' ' + DELIM[L]))
            src, tgt = ref(d, x)
            tp = d.rd(tgt, 'field', 'parent')
            d.fmt('\n' + SPACER[L] + DELIM[L] + 'INNER JOIN %s AS %s ON %s.%s=%s.%s ' + DELIM[L], sname(d, tp), d.rd(a, 'alias', 'alias'), d.rd(a, 'alias', 'alias'), name(d, tgt),
                sname(d, p) if d.c(parent == 0) else d.rd(parent, 'alias', 'alias'), name(d, src))
            d.call('gen_sql_stmt_join', f, tabs, lang, orig, tp, a, None)
        d.each('fieldq', h, one)
        k = get(d.eng, d.final, cnt)
        return z3.And(z3.ULT(k, BIG), (k == 0) == z3.And(c0 == 0, z3.Not(d.exists('fieldq', h, lambda y: joined(d, y)))))
    return f
JC = {}
def h_join(cut):
    """the count is zero exactly if nothing was joined so far"""
    if not cut.iter or cut.iter[0] != 'list' or cut.iter[3] != 'fieldq' or not JC: return []
    def f(t, ix):
        d = D(cut.eng, [], [])
        j = fresh('ix', I)
        x = d.at('fieldq', cut.iter[2], j)
        n = len(d.s0.pc)
        b = d.closefacts(n, j, joined(d, x))
        v = get(cut.eng, t, JC['p'])
        return z3.And(z3.ULT(v, BIG), (v == 0) == z3.And(JC['v0'] == 0, upto(j, ix, z3.Not(b), x)))
    return [('joins', f)]
def r_join(d, f, tabs, lang, orig, p, parent, cnt):
    d.eng.hints = (h_join,)
    JC.update(p=cnt, v0=get(d.eng, d.s0, cnt))
    pre = z3.If(parent == 0, z3.IntVal(0), d.rd(parent, 'alias', 'name'))
    return [z3.ULT(JC['v0'], BIG), aliased(d, orig, p, pre), ALIASED(orig, p, z3.If(parent == 0, z3.IntVal(-7), d.eng.lower(d.eng.content(d.rd(parent, 'alias', 'name'))))), z3.Implies(parent != 0, d.rd(parent, 'alias', 'name') != 0)]
perlang('gen_sql_stmt_join', s_join, con=dict(gen_sql_stmt_join=c_join), requires=r_join, retok=lambda d, v, r: z3.And(v != 0, r))

# ---------------------------------------------------------------- statements
SQLOP = dict(OPTYPE_EQUAL='=', OPTYPE_GE='>=', OPTYPE_GT='>', OPTYPE_LE='<=', OPTYPE_LT='<', OPTYPE_NEQUAL='!=', OPTYPE_LIKE='LIKE', OPTYPE_AND='&', OPTYPE_OR='|',
    OPTYPE_STREQ='=', OPTYPE_STRNEQ='!=', OPTYPE_ISNULL='ISNULL', OPTYPE_NOTNULL='NOTNULL')
def insfield(d, x): return z3.And(d.rd(x, 'field', 'type') != d.const('FTYPE_STRUCT'), z3.Not(d.flag(x, 'field', 'flags', 'FIELD_ROWID')))
def insql(d, x):
    """conditions the database decides: not those against a password hash"""
    op = d.rd(x, 'sent', 'op')
    return z3.Not(z3.And(d.is_(d.rd(x, 'sent', 'field'), 'field', 'type', 'FTYPE_PASSWORD'), z3.ULT(op, d.const('OPTYPE_ISNULL')), op != d.const('OPTYPE_STREQ'), op != d.const('OPTYPE_STRNEQ')))
def cond(d, x, rec, pre=None):
    op = d.rd(x, rec, 'op')
    if pre is not None: d.str(pre); d.lit('.')
    d.str(name(d, d.rd(x, rec, 'field'))); d.lit(' '); d.str(d.choose(op, list(SQLOP.items())))
    d.when(z3.ULT(op, d.const('OPTYPE_ISNULL')), lambda d: d.lit(' ?'))
def s_stmts(L):
    dl, sp = DELIM[L], SPACER[L]
    def f(d, f, tabs, p, lang):
        nm = sname(d, p)
        def head(d, enum, *a):
            if L != 'RUST': d.lit('/* ')
            d.call(enum, f, 1, *a)
            d.lit(' => { s = String::new() + ' if L == 'RUST' else ' */ ')
        def tail(d): d.lit('; }, ' if L == 'RUST' else ', ')
        fq = d.rd(p, 'strct', 'fq')
        anyjoin = d.exists('fieldq', fq, lambda x: joined(d, x))
        join = lambda d: d.call('gen_sql_stmt_join', f, None, lang, p, p, 0, None)
        def uniq(d, x, i):
            if not d.c(d.flag(x, 'field', 'flags', 'FIELD_UNIQUE', 'FIELD_ROWID')): return
            head(d, 'gen_enum_unique', x, lang)
            d.lit(dl + 'SELECT '); d.call('gen_sql_stmt_schema', f, None, lang, p, 1, p, 0, None)
            d.fmt(sp + dl + ' FROM %s', nm); join(d)
            if d.c(anyjoin): d.lit(' ' + sp + dl)
            else: d.lit(' ')
            d.fmt('WHERE %s.%s = ?' + dl, nm, name(d, x)); tail(d)
        d.each('fieldq', fq, uniq)
        def search(d, s, i):
            head(d, 'gen_enum_query', p, n2b(i, 64), lang)
            T = d.rd(s, 'search', 'dst'); dst = T != 0
            count, one = d.is_(s, 'search', 'type', 'STYPE_COUNT'), d.is_(s, 'search', 'type', 'STYPE_SEARCH')
            And, Or, Not = z3.And, z3.Or, z3.Not
            txt = lambda d, g, x, y: d.str(z3.If(g, d.eng.lit(x), d.eng.lit(y)))
            d.lit(dl + 'SELECT ')
            d.when(count, lambda d: (d.lit('COUNT(*)'), txt(d, dst, ' FROM (SELECT ', '')))
            def distinct(d):
                fn = d.rd(T, 'dstnct', 'fname')
                d.lit('DISTINCT '); d.call('gen_sql_stmt_schema', f, None, lang, p, 1, d.rd(T, 'dstnct', 'strct'), z3.If(d.streq(fn, '.'), z3.IntVal(0), fn), None)
            own = lambda d: d.call('gen_sql_stmt_schema', f, None, lang, p, 1, p, 0, None)
            d.when(dst, distinct, lambda d: d.when(Not(count), own))
            d.when(Or(dst, Not(count)), lambda d: d.lit(sp + dl))
            d.fmt(' FROM %s', nm); join(d)
            grp, agg = d.rd(s, 'search', 'group'), d.rd(s, 'search', 'aggr')
            limit, offset = d.rd(s, 'search', 'limit'), d.rd(s, 'search', 'offset')
            sq, oq = d.rd(s, 'search', 'sntq'), d.rd(s, 'search', 'ordq')
            grouped, joins = And(agg != 0, grp != 0), anyjoin
            def group(d):
                d.when(Not(joins), lambda d: d.lit(' ' + dl))
                al = d.rd(grp, 'group', 'alias'); gf, af = d.rd(grp, 'group', 'field'), d.rd(agg, 'aggr', 'field')
                par = sname(d, d.rd(gf, 'field', 'parent'))
                tab = lambda d: d.str(z3.If(al == 0, par, d.rd(al, 'alias', 'alias')))
                d.fmt(' ' + sp + dl + 'LEFT OUTER JOIN %s as _custom ON ', par); tab(d); d.fmt('.%s = _custom.%s AND ', name(d, gf), name(d, gf)); tab(d); d.fmt('.%s ', name(d, af))
                txt(d, d.is_(agg, 'aggr', 'op', 'AGGR_MAXROW'), '<', '>'); d.fmt(' _custom.%s ' + dl, name(d, af))
            d.when(grouped, group)
            trail = d.c(Or(grouped, d.len('sentq', sq) > 0, d.len('ordq', oq) > 0, And(Not(one), limit > 0), offset > 0, And(count, dst)))
            if not trail:
                d.when(Not(joins), lambda d: d.lit(dl))
                tail(d); return
            d.when(And(Not(joins), Not(grouped)), lambda d: d.lit(' ' + dl))
            d.lit(' ' + sp + dl)
            d.when(grp != 0, lambda d: d.fmt('WHERE _custom.%s IS NULL', name(d, d.rd(grp, 'group', 'field'))))
            def sent(d, x, j):
                def out(d):
                    d.when(Or(grp != 0, before(d, 'sentq', sq, j, lambda y: insql(d, y))), lambda d: d.lit(' AND '), lambda d: d.lit('WHERE '))
                    al = d.rd(x, 'sent', 'alias')
                    cond(d, x, 'sent', z3.If(al == 0, nm, d.rd(al, 'alias', 'alias')))
                if d.c(insql(d, x)): out(d)
            d.each('sentq', sq, sent)
            d.when(d.len('ordq', oq) > 0, lambda d: d.lit(' ORDER BY '))
            def order(d, x, j):
                d.when(j > 0, lambda d: d.lit(', '))
                al = d.rd(x, 'ord', 'alias')
                d.str(z3.If(al == 0, nm, d.rd(al, 'alias', 'alias'))); d.fmt('.%s ', name(d, d.rd(x, 'ord', 'field')))
                txt(d, d.is_(x, 'ord', 'op', 'ORDTYPE_ASC'), 'ASC', 'DESC')
            d.each('ordq', oq, order)
            d.when(And(Or(Not(one), offset > 0), limit > 0), lambda d: (d.lit(' LIMIT '), d.num('d', limit)))
            d.when(And(Or(Not(count), dst), offset > 0), lambda d: (d.lit(' OFFSET '), d.num('d', offset)))
            d.when(And(count, dst), lambda d: d.lit(')'))
            d.lit(dl); tail(d)
        d.each('searchq', d.rd(p, 'strct', 'sq'), search)
        if d.c(d.rd(p, 'strct', 'ins') != 0):
            head(d, 'gen_enum_insert', p, lang)
            d.fmt(dl + 'INSERT INTO %s ', nm)
            brk = lambda comma, op: comma + dl + ' ' + sp + dl + op
            def seq(body):
                def one(d, x, i):
                    if not d.c(insfield(d, x)): return
                    if d.c(before(d, 'fieldq', fq, i, lambda y: insfield(d, y))): d.alt(lambda d: d.lit(','), lambda d: d.lit(brk(',', ' ')))
                    else: d.alt(lambda d: d.lit('('), lambda d: d.lit(brk('', '(')))
                    body(d, x)
                return one
            if d.c(d.exists('fieldq', fq, lambda x: insfield(d, x))):
                d.each('fieldq', fq, seq(lambda d, x: d.str(name(d, x))))
                d.alt(lambda d: d.lit(') VALUES '), lambda d: d.lit(') ' + brk('', '') + 'VALUES '))
                d.each('fieldq', fq, seq(lambda d, x: d.lit('?')))
                d.lit(')' + dl)
            else: d.lit('DEFAULT VALUES' + dl)
            tail(d)
        def where(d, up):
            q = d.rd(up, 'update', 'crq')
            def one(d, x, j):
                d.when(j > 0, lambda d: d.lit(' AND '), lambda d: d.lit(' WHERE ')); cond(d, x, 'uref')
            d.each('urefq', q, one)
            d.lit(dl); tail(d)
        def update(d, up, i):
            head(d, 'gen_enum_update', p, n2b(i, 64), lang)
            d.fmt(dl + 'UPDATE %s SET', nm)
            def mod(d, x, j):
                d.when(j > 0, lambda d: d.lit(','), lambda d: d.lit(' '))
                fd = d.rd(x, 'uref', 'field'); n = name(d, fd)
                d.fmt('%s = ', n)
                m = d.case(d.rd(x, 'uref', 'mod'), [d.const('MODTYPE_' + y) for y in ('INC', 'DEC', 'CONCAT')])
                if m == d.const('MODTYPE_INC'): d.fmt('%s + ?', n)
                elif m == d.const('MODTYPE_DEC'): d.fmt('%s - ?', n)
                elif m == d.const('MODTYPE_CONCAT'):
                    if d.c(d.flag(fd, 'field', 'flags', 'FIELD_NULL')): d.fmt("COALESCE(%s," + ("\\'\\'" if L == 'JS' else "''") + ")", n)
                    else: d.str(n)
                    d.lit(' || ?')
                else: d.lit('?')
            d.each('urefq', d.rd(up, 'update', 'mrq'), mod)
            where(d, up)
        d.each('updateq', d.rd(p, 'strct', 'uq'), update)
        def delete(d, up, i):
            head(d, 'gen_enum_delete', p, n2b(i, 64), lang)
            d.fmt(dl + 'DELETE FROM %s', nm)
            where(d, up)
        d.each('updateq', d.rd(p, 'strct', 'dq'), delete)
    return f
def r_stmts(d, f, tabs, p, lang):
    z = z3.IntVal(0)
    out = [aliased(d, p, p, z), ALIASED(p, p, pathc(d.eng, z))]
    # what a search selects distinctly is nested in the structure, and has an alias
    def dst(s):
        t = d.rd(s, 'search', 'dst'); fn = d.rd(t, 'dstnct', 'fname')
        dot = d.streq(fn, '.')
        return z3.Implies(t != 0, z3.And(fn != 0, ALIASED(p, d.rd(t, 'dstnct', 'strct'), z3.If(dot, z3.IntVal(-7), d.eng.lower(d.eng.content(fn)))), z3.Implies(z3.Not(dot), hasalias(d, p, fn))))
    out.append(d.forall('searchq', d.rd(p, 'strct', 'sq'), dst))
    out.append(d.forall('searchq', d.rd(p, 'strct', 'sq'), lambda s: z3.Implies(z3.And(d.rd(s, 'search', 'aggr') != 0, d.rd(s, 'search', 'group') != 0),
        d.rd(d.rd(d.rd(s, 'search', 'aggr'), 'aggr', 'field'), 'field', 'parent') == d.rd(d.rd(d.rd(s, 'search', 'group'), 'group', 'field'), 'field', 'parent'))))
    return out
perlang('gen_sql_stmts', s_stmts, ENUMS, con=dict(gen_sql_stmt_schema=c_schema, gen_sql_stmt_join=c_join), requires=r_stmts, mergetr=True, merge_threshold=1, qfeas=False, hist=False,
    hints=(firsts('sentq', insql), firsts('fieldq', insfield), firsts('urefq', None), firsts('ordq', None)))
