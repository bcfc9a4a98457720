"""lang-json.c: the configuration exported as JSON (P10)"""
from common import *
F = 'lang-json.c'
nm = lambda d, R, x: d.rd(x, R, 'name')
def sep(d, R, q, i, s=','):
    if d.c(i + 1 < d.len(R, q)): d.lit(s)
def listof(d, R, q, one, s=','):
    def body(d, e, i): one(d, e); sep(d, R, q, i, s)
    d.each(R, q, body)
def jp(name, spec, con=None, **k): emit_proof(name, F, spec, con, **dict(dict(qfeas=False), **k))
def T(*a): return [(x.split(':')[0], x.split(':')[1]) for x in a]
ORD = T('ORDTYPE_ASC:asc', 'ORDTYPE_DESC:desc')
AGGR = T('AGGR_MAXROW:maxrow', 'AGGR_MINROW:minrow')
MOD = [('MODTYPE_' + x.upper(), x) for x in ('concat', 'dec', 'inc', 'set', 'strset')]
OP = [('OPTYPE_' + a, b) for a, b in T('EQUAL:eq', 'GE:ge', 'GT:gt', 'LE:le', 'LT:lt', 'NEQUAL:neq', 'LIKE:like', 'AND:and', 'OR:or', 'STREQ:streq', 'STRNEQ:strneq', 'ISNULL:isnull', 'NOTNULL:notnull')]
FT = [('FTYPE_' + x.upper(), x) for x in ('bit', 'date', 'epoch', 'int', 'real', 'blob', 'text', 'password', 'email', 'struct', 'enum', 'bitfield')]
VT = [('VALIDATE_' + x.upper(), x) for x in ('ge', 'le', 'gt', 'lt', 'eq')]
UPA = [('UPACT_' + x.upper(), x) for x in ('none', 'restrict', 'nullify', 'cascade', 'default')]
ST = [('STYPE_' + x.upper(), x) for x in ('count', 'search', 'list', 'iterate')]
RM = [('ROLEMAP_' + x.upper(), x) for x in ('all', 'count', 'delete', 'insert', 'iterate', 'list', 'search', 'update', 'noexport')]
def below(d, v, m): return z3.ULT(v, d.const(m))

# the escaping rules of JSON, given ort(5) strings whose quotes are written \"
def s_string(d, f, cp):
    d.lit(' "')
    ESC = {8: '\\b', 12: '\\f', 10: '\\n', 13: '\\r', 9: '\\t', 34: '\\"'}
    def one(d, p, c):
        for k, v in ESC.items():
            if d.c(c == k): d.lit(v); return p + 1
        if d.c(c == ord('\\')):
            if d.c(d.char(p + 1) == ord('"')): d.lit('\\"'); return p + 2
            d.lit('\\\\'); return p + 1
        if d.c(z3.ULT(c, 32)): d.lit('\\u'); d.raw('%.4x', z3.ZeroExt(24, c)); return p + 1
        d.chr(c); return p + 1
    d.walk(cp, one)
    d.lit('"')
jp('gen_string', s_string)

def s_rmfull(d, f, m):
    ty = d.rd(m, 'rolemap', 'type')
    d.fmt(' { "type": "%s", "rq": [', d.choose(ty, RM))
    listof(d, 'rrefq', d.rd(m, 'rolemap', 'rq'), lambda d, e: d.fmt(' "%s"', nm(d, 'role', d.rd(e, 'rref', 'role'))))
    d.lit(' ], "name": ')
    # what the operation is named: its own statement, or the field
    t = lambda *n: d.c(oneof(ty, *[d.const('ROLEMAP_' + x) for x in n]))
    if t('INSERT', 'ALL'): d.lit('null')
    elif t('NOEXPORT'):
        x = d.rd(m, 'rolemap::anon0', 'f')
        if d.c(x == 0): d.lit('null')
        else: d.fmt('"%s"', nm(d, 'field', x))
    elif t('UPDATE', 'DELETE'): d.fmt('"%s"', nm(d, 'update', d.rd(m, 'rolemap::anon0', 'u')))
    else: d.fmt('"%s"', nm(d, 'search', d.rd(m, 'rolemap::anon0', 's')))
    d.lit('}')
jp('gen_rolemap_full', s_rmfull, requires=lambda d, f, m: [below(d, d.rd(m, 'rolemap', 'type'), 'ROLEMAP__MAX')])

def s_rm(d, f, comma, m):
    d.lit('"rolemap": [')
    if d.c(m != 0): listof(d, 'rrefq', d.rd(m, 'rolemap', 'rq'), lambda d, e: d.fmt(' "%s"', nm(d, 'role', d.rd(e, 'rref', 'role'))))
    d.lit(']')
    if d.c(comma != 0): d.lit(',')
jp('gen_rolemap', s_rm)

def s_pos(d, f, p):
    d.lit(' "pos": { "fname": '); d.call('gen_string', None, d.rd(p, 'pos', 'fname'))
    d.fmt(', "line": %zu, "column": %zu },', d.rd(p, 'pos', 'line'), d.rd(p, 'pos', 'column'))
jp('gen_pos', s_pos, ['gen_string'])
def pos(d, R, x): d.call('gen_pos', None, d.rd(x, R, 'pos'))
def doc(d, R, x): d.call('gen_doc', None, d.rd(x, R, 'doc'))
def labels(d, k, q, cfg): d.call('gen_labelq', None, k, q, cfg)

def s_label(d, f, name, l, cfg):
    d.fmt(' "%s": { "lang": "%s",', name, name); pos(d, 'label', l)
    d.lit(' "value":'); d.call('gen_string', None, d.rd(l, 'label', 'label')); d.lit(' }')
jp('gen_label', s_label, ['gen_pos', 'gen_string'])
def lang(d, c, l):
    a = d.eng.padd(d.rd(c, 'config', 'langs'), l, 'unsigned long', 'char *')
    return d.eng.rdmem(d.s0, a, 'char *')
def s_labelq(d, f, name, q, cfg):
    d.fmt(' "%s": {', name)
    def one(d, e):
        s = lang(d, cfg, d.rd(e, 'label', 'lang'))
        d.call('gen_label', None, z3.If(d.char(s) == 0, d.eng.lit('_default'), s), e, cfg)
    listof(d, 'labelq', q, one)
    d.lit(' },')
jp('gen_labelq', s_labelq, ['gen_label'], uidx=True)

def s_doc(d, f, s):
    d.lit(' "doc": ')
    if d.c(s == 0): d.lit('null,')
    else: d.call('gen_string', None, s); d.lit(',')
jp('gen_doc', s_doc, ['gen_string'])

def s_eitem(d, f, e, cfg):
    d.fmt(' "%s": { "name": "%s", "parent": "%s", ', nm(d, 'eitem', e), nm(d, 'eitem', e), nm(d, 'enm', d.rd(e, 'eitem', 'parent')))
    pos(d, 'eitem', e); doc(d, 'eitem', e); labels(d, 'labels', d.rd(e, 'eitem', 'labels'), cfg)
    d.lit(' "value": ')
    if d.c(d.flag(e, 'eitem', 'flags', 'EITEM_AUTO')): d.lit('null }')
    else: d.fmt('"%d" }', d.rd(e, 'eitem', 'value'))
SUB = ['gen_pos', 'gen_doc', 'gen_labelq']
jp('gen_eitem', s_eitem, SUB)
def s_enm(d, f, e, cfg):
    d.fmt(' "%s": { "name": "%s", ', nm(d, 'enm', e), nm(d, 'enm', e))
    pos(d, 'enm', e); doc(d, 'enm', e); labels(d, 'labelsNull', d.rd(e, 'enm', 'labels_null'), cfg)
    d.lit(' "eq": {'); listof(d, 'eitemq', d.rd(e, 'enm', 'eq'), lambda d, x: d.call('gen_eitem', None, x, cfg)); d.lit(' } }')
jp('gen_enm', s_enm, SUB + ['gen_eitem'])
def s_bitidx(d, f, b, cfg):
    d.fmt(' "%s": { "parent": "%s", "name": "%s", ', nm(d, 'bitidx', b), nm(d, 'bitf', d.rd(b, 'bitidx', 'parent')), nm(d, 'bitidx', b))
    pos(d, 'bitidx', b); doc(d, 'bitidx', b); labels(d, 'labels', d.rd(b, 'bitidx', 'labels'), cfg)
    v = d.rd(b, 'bitidx', 'value')
    d.fmt(' "mask": "%u", "value": "%d" }', z3.BitVecVal(1, 64) << v, v)
jp('gen_bitidx', s_bitidx, SUB, requires=lambda d, f, b, cfg: [d.rd(b, 'bitidx', 'value') >= 0, d.rd(b, 'bitidx', 'value') < 64])
def s_bitf(d, f, e, cfg):
    d.fmt(' "%s": { "name": "%s", ', nm(d, 'bitf', e), nm(d, 'bitf', e))
    pos(d, 'bitf', e); doc(d, 'bitf', e); labels(d, 'labelsNull', d.rd(e, 'bitf', 'labels_null'), cfg); labels(d, 'labelsUnset', d.rd(e, 'bitf', 'labels_unset'), cfg)
    d.lit(' "bq": {'); listof(d, 'bitidxq', d.rd(e, 'bitf', 'bq'), lambda d, x: d.call('gen_bitidx', None, x, cfg)); d.lit(' } }')
jp('gen_bitf', s_bitf, SUB + ['gen_bitidx'])
def allof(key, R, q, fn, end):
    def s(d, f, cfg):
        d.lit(' "%s": {' % key); listof(d, R, d.rd(cfg, 'config', q), lambda d, e: d.call(fn, None, e, cfg)); d.lit(end)
    return s
jp('gen_enms', allof('eq', 'enmq', 'eq', 'gen_enm', ' },'), ['gen_enm'])
jp('gen_bitfs', allof('bq', 'bitfq', 'bq', 'gen_bitf', ' },'), ['gen_bitf'])

def s_role(d, f, r):
    d.fmt(' "%s": { "name": "%s", "parent": ', nm(d, 'role', r), nm(d, 'role', r))
    p = d.rd(r, 'role', 'parent')
    if d.c(p == 0): d.lit('null, ')
    else: d.fmt('"%s", ', nm(d, 'role', p))
    pos(d, 'role', r); doc(d, 'role', r)
    d.lit(' "subrq": ['); listof(d, 'roleq', d.rd(r, 'role', 'subrq'), lambda d, e: d.fmt('"%s"', nm(d, 'role', e))); d.lit('] }')
jp('gen_role', s_role, ['gen_pos', 'gen_doc'])
def s_roles(d, f, cfg):
    d.lit(' "rq": ')
    if d.c(d.len('roleq', d.rd(cfg, 'config', 'rq')) == 0): d.lit('null,'); return
    d.lit('{'); listof(d, 'roleq', d.rd(cfg, 'config', 'arq'), lambda d, e: d.call('gen_role', None, e)); d.lit(' },')
jp('gen_roles', s_roles, ['gen_role'])

INTS = ('FTYPE_BIT', 'FTYPE_BITFIELD', 'FTYPE_DATE', 'FTYPE_EPOCH', 'FTYPE_INT')
LENS = ('FTYPE_BLOB', 'FTYPE_EMAIL', 'FTYPE_TEXT', 'FTYPE_PASSWORD')
def s_field(d, f, x):
    t = lambda *ns: d.c(oneof(d.rd(x, 'field', 'type'), *[d.const(n) for n in ns]))
    par = lambda y: nm(d, 'strct', d.rd(y, 'field', 'parent'))
    d.fmt(' "%s": { "name": "%s", "parent": "%s", ', nm(d, 'field', x), nm(d, 'field', x), par(x))
    pos(d, 'field', x); doc(d, 'field', x)
    d.lit(' "flags": [')
    KS = ('rowid', 'unique', 'noexport', 'null')
    has = lambda *ks: d.flag(x, 'field', 'flags', *['FIELD_' + k.upper() for k in ks])
    for i, k in enumerate(KS):
        def one(d):
            d.lit('"%s"' % k)
            if KS[i + 1:]: d.when(has(*KS[i + 1:]), lambda d: d.lit(', '))
        d.when(has(k), one)
    d.lit('],')
    for k, R in (('enm', 'enm'), ('bitf', 'bitf')):
        y = d.rd(x, 'field', k)
        d.when(y != 0, lambda d: d.fmt(' "' + k + '": "%s",', nm(d, R, y)))
    r = d.rd(x, 'field', 'ref')
    def ref(d):
        a, b = d.rd(r, 'ref', 'target'), d.rd(r, 'ref', 'source')
        p = lambda y: nm(d, 'strct', d.rd(y, 'field', 'parent'))
        d.fmt(' "ref": { "target": { "strct": "%s", "field": "%s" }, "source": { "strct": "%s", "field": "%s" } },', p(a), nm(d, 'field', a), p(b), nm(d, 'field', b))
    d.when(r != 0, ref)
    d.lit(' "def": ')
    def dflt(d):
        v = lambda k: d.rd(d.rd(x, 'field', 'def'), 'field::anon0', k)
        if t(*INTS): d.fmt('"%d"', v('integer'))
        elif t('FTYPE_REAL'): d.lit('"'); d.raw('%.17g', v('decimal')); d.lit('"')
        elif t('FTYPE_EMAIL', 'FTYPE_TEXT'): d.call('gen_string', None, v('string'))
        else: d.fmt('"%s"', nm(d, 'eitem', v('eitem')))
    d.when(d.flag(x, 'field', 'flags', 'FIELD_HASDEF'), dflt, lambda d: d.lit('null'))
    d.fmt(', "actdel": "%s", "actup": "%s",', d.choose(d.rd(x, 'field', 'actdel'), UPA), d.choose(d.rd(x, 'field', 'actup'), UPA))
    d.call('gen_rolemap', None, 1, d.rd(x, 'field', 'rolemap'))
    d.lit(' "fvq": [')
    q = d.rd(x, 'field', 'fvq')
    def lim(d, e):
        d.pc.append(below(d, d.rd(e, 'fvalid', 'type'), 'VALIDATE__MAX'))
        d.fmt(' { "type": "%s", "limit": "', d.choose(d.rd(e, 'fvalid', 'type'), VT))
        w = lambda k: d.rd(d.rd(d.rd(e, 'fvalid', 'd'), 'fvalid::anon0', 'value'), 'fvalid::anon0::anon0', k)
        ty = d.rd(x, 'field', 'type')
        if d.c(oneof(ty, *[d.const(n) for n in INTS])): d.fmt('%d', w('integer'))
        elif d.c(ty == d.const('FTYPE_REAL')): d.raw('%.17g', w('decimal'))
        else: d.fmt('%zu', w('len'))
        d.lit('"}')
    listof(d, 'fvalidq', q, lim)
    d.fmt(' ], "type": "%s" }', d.choose(d.rd(x, 'field', 'type'), FT))
def r_field(d, f, x):
    """a linked field; only these types have defaults and limits"""
    t = lambda *ns: oneof(d.rd(x, 'field', 'type'), *[d.const(n) for n in ns])
    return [below(d, d.rd(x, 'field', 'type'), 'FTYPE__MAX'), below(d, d.rd(x, 'field', 'actdel'), 'UPACT__MAX'), below(d, d.rd(x, 'field', 'actup'), 'UPACT__MAX'),
            z3.Implies(d.flag(x, 'field', 'flags', 'FIELD_HASDEF'), t(*(INTS + ('FTYPE_REAL', 'FTYPE_EMAIL', 'FTYPE_TEXT', 'FTYPE_ENUM')))),
            z3.Implies(d.len('fvalidq', d.rd(x, 'field', 'fvq')) > 0, t(*(INTS + LENS + ('FTYPE_REAL',))))]
jp('gen_field', s_field, ['gen_pos', 'gen_doc', 'gen_string', 'gen_rolemap'], requires=r_field, mergetr=True, merge_threshold=1)

def s_insert(d, f, x):
    if d.c(x == 0): d.lit(' null,'); return
    d.lit(' {'); pos(d, 'insert', x); d.call('gen_rolemap', None, 0, d.rd(x, 'insert', 'rolemap')); d.lit(' },')
jp('gen_insert', s_insert, ['gen_pos', 'gen_rolemap'])
def s_chain(d, f, ch, n):
    d.lit(' "chain": [')
    def one(d, i):
        x = d.eng.rdmem(d.s0, d.eng.padd(ch, i, 'unsigned long', 'struct field *'), 'struct field *')
        if d.c(i != 0): d.lit(', ')
        d.fmt('"%s.%s"', nm(d, 'strct', d.rd(x, 'field', 'parent')), nm(d, 'field', x))
    d.times(n, one)
    d.lit(' ],')
jp('gen_chain', s_chain, uidx=True)
def chain(d, R, x): d.call('gen_chain', None, d.rd(x, R, 'chain'), d.rd(x, R, 'chainsz'))
PC = ['gen_pos', 'gen_chain']
def op(d, R, x, TAB): return d.choose(d.rd(x, R, 'op'), TAB)
def s_order(d, f, o):
    d.lit(' {'); pos(d, 'ord', o); chain(d, 'ord', o); d.fmt(' "fname": "%s", "op": "%s" }', d.rd(o, 'ord', 'fname'), op(d, 'ord', o, ORD))
jp('gen_order', s_order, PC, requires=lambda d, f, o: [z3.ULT(d.rd(o, 'ord', 'op'), 2)])
def s_sent(d, f, s):
    d.lit(' {'); pos(d, 'sent', s); chain(d, 'sent', s)
    x = d.rd(s, 'sent', 'field')
    d.fmt(' "fname": "%s", "uname": "%s", "field": { "strct": "%s", "field": "%s" }, "op": "%s" }', d.rd(s, 'sent', 'fname'), d.rd(s, 'sent', 'uname'),
          nm(d, 'strct', d.rd(x, 'field', 'parent')), nm(d, 'field', x), op(d, 'sent', s, OP))
jp('gen_sent', s_sent, PC, requires=lambda d, f, s: [below(d, d.rd(s, 'sent', 'op'), 'OPTYPE__MAX')])
def s_group(d, f, g):
    if d.c(g == 0): d.lit(' null,'); return
    d.lit(' {'); pos(d, 'group', g); chain(d, 'group', g); d.fmt(' "fname": "%s" },', d.rd(g, 'group', 'fname'))
jp('gen_group', s_group, PC)
def s_dst(d, f, g):
    if d.c(g == 0): d.lit(' null'); return
    d.lit(' {'); pos(d, 'dstnct', g); chain(d, 'dstnct', g); d.fmt(' "strct": "%s", "fname": "%s" }', nm(d, 'strct', d.rd(g, 'dstnct', 'strct')), d.rd(g, 'dstnct', 'fname'))
jp('gen_distinct', s_dst, PC)
def s_aggr(d, f, g):
    if d.c(g == 0): d.lit(' null,'); return
    d.lit(' {'); pos(d, 'aggr', g); chain(d, 'aggr', g); d.fmt(' "fname": "%s", "op": "%s" },', d.rd(g, 'aggr', 'fname'), op(d, 'aggr', g, AGGR))
jp('gen_aggr', s_aggr, PC, requires=lambda d, f, g: [z3.Implies(g != 0, z3.ULT(d.rd(g, 'aggr', 'op'), 2))])

# searches and updates: "first" tells whether a comma goes before
def lead(d, R, first, x):
    v = z3.Select(d.eng.harr(St(), d.eng.memkey('int'), 'int'), first)
    d.when(v == 0, lambda d: d.lit(','))
    n = nm(d, R, x)
    if d.c(n != 0): d.fmt(' "%s": { "name": "%s",', n, n)
    else: d.lit(' { "name": null,')
    d.fmt(' "parent": "%s",', nm(d, 'strct', d.rd(x, R, 'parent')))
    pos(d, R, x); doc(d, R, x)
def notfirst(d, v, r):
    e = d.eng
    return z3.And(v != 0, z3.Select(e.harr(d.final, e.memkey('int'), 'int'), d.firstp) == 0)
def s_search(d, f, first, s):
    d.firstp = first
    lead(d, 'search', first, s)
    d.call('gen_rolemap', None, 1, d.rd(s, 'search', 'rolemap'))
    d.fmt(' "limit": "%d", "offset": "%d", "type": "%s", "sntq": [', d.rd(s, 'search', 'limit'), d.rd(s, 'search', 'offset'), d.choose(d.rd(s, 'search', 'type'), ST))
    listof(d, 'sentq', d.rd(s, 'search', 'sntq'), lambda d, e: d.call('gen_sent', None, e))
    d.lit(' ], "ordq": [')
    listof(d, 'ordq', d.rd(s, 'search', 'ordq'), lambda d, e: d.call('gen_order', None, e))
    d.lit(' ], "aggr": '); d.call('gen_aggr', None, d.rd(s, 'search', 'aggr'))
    d.lit(' "group": '); d.call('gen_group', None, d.rd(s, 'search', 'group'))
    d.lit(' "dst": '); d.call('gen_distinct', None, d.rd(s, 'search', 'dst'))
    d.lit(' }')
jp('gen_search', s_search, ['gen_pos', 'gen_doc', 'gen_rolemap', 'gen_sent', 'gen_order', 'gen_aggr', 'gen_group', 'gen_distinct'],
   requires=lambda d, f, first, s: [below(d, d.rd(s, 'search', 'type'), 'STYPE__MAX')], retok=notfirst, mergetr=True, merge_threshold=1)
def s_uref(d, f, u):
    d.lit(' {'); pos(d, 'uref', u)
    d.fmt(' "field": "%s", "op": "%s", "mod": "%s" }', nm(d, 'field', d.rd(u, 'uref', 'field')), op(d, 'uref', u, OP), d.choose(d.rd(u, 'uref', 'mod'), MOD))
jp('gen_uref', s_uref, ['gen_pos'], requires=lambda d, f, u: [below(d, d.rd(u, 'uref', 'op'), 'OPTYPE__MAX'), below(d, d.rd(u, 'uref', 'mod'), 'MODTYPE__MAX')])
def s_update(d, f, first, u):
    d.firstp = first
    lead(d, 'update', first, u)
    d.fmt('"type": "%s", "mrq": [', z3.If(d.rd(u, 'update', 'type') == d.const('UP_MODIFY'), d.eng.lit('update'), d.eng.lit('delete')))
    listof(d, 'urefq', d.rd(u, 'update', 'mrq'), lambda d, e: d.call('gen_uref', None, e))
    d.lit(' ], "crq": [')
    listof(d, 'urefq', d.rd(u, 'update', 'crq'), lambda d, e: d.call('gen_uref', None, e))
    d.lit('], "flags": [')
    d.when(d.flag(u, 'update', 'flags', 'UPDATE_ALL'), lambda d: d.lit(' "all"'))
    d.lit(' ], '); d.call('gen_rolemap', None, 0, d.rd(u, 'update', 'rolemap')); d.lit(' }')
jp('gen_update', s_update, ['gen_pos', 'gen_doc', 'gen_rolemap', 'gen_uref'], retok=notfirst, mergetr=True, merge_threshold=1)
def s_uniq(d, f, u):
    d.lit(' {'); pos(d, 'unique', u); d.lit(' "nq": [')
    listof(d, 'nrefq', d.rd(u, 'unique', 'nq'), lambda d, e: d.fmt(' "%s"', nm(d, 'field', d.rd(e, 'nref', 'field')))); d.lit(' ] }')
jp('gen_unique', s_uniq, ['gen_pos'])

def item(name):
    """call-site contract: a comma unless first, then the object; no longer first"""
    def f(eng, st, a, n):
        v = eng.load(a[1], 'int', st)
        st.emit(('cond', v == 0, [('lit', ',')], []))
        eng.store(a[1], 'int', z3.BitVecVal(0, 32), st)
        st.emit(('call', name, (a[2],)))
        return [(z3.BitVecVal(1, 32), st)]
    return f
def s_strct(d, f, s):
    d.fmt(' "%s": {', nm(d, 'strct', s)); pos(d, 'strct', s); doc(d, 'strct', s)
    d.fmt(' "name": "%s", "fq": {', nm(d, 'strct', s))
    listof(d, 'fieldq', d.rd(s, 'strct', 'fq'), lambda d, e: d.call('gen_field', None, e))
    d.lit(' }, "insert":'); d.call('gen_insert', None, d.rd(s, 'strct', 'ins'))
    d.lit(' "rq": [ '); listof(d, 'rolemapq', d.rd(s, 'strct', 'rq'), lambda d, e: d.call('gen_rolemap_full', None, e))
    d.lit(' ], "nq": [ '); listof(d, 'uniqueq', d.rd(s, 'strct', 'nq'), lambda d, e: d.call('gen_unique', None, e))
    d.lit(' ],')
    for k, R, rec, fn in (('uq', 'updateq', 'update', 'gen_update'), ('dq', 'updateq', 'update', 'gen_update'), ('sq', 'searchq', 'search', 'gen_search')):
        q = d.rd(s, 'strct', k)
        for named in (True, False):
            d.lit(' "%s": { "named": {' % k if named else ' "anon": [')
            p = lambda e, named=named, rec=rec, d=d: (nm(d, rec, e) != 0) == named
            def one(d, e, i, R=R, rec=rec, fn=fn, q=q, named=named):
                pr = lambda x: (nm(d, rec, x) != 0) == named
                if not d.c(pr(e)): return
                d.when(before(d, R, q, i, pr), lambda d: d.lit(','))
                d.call(fn, e)
            d.each(R, q, one)
            d.lit(' },' if named else ' ] },' if k != 'sq' else ' ] } }')
@proof('lang-json:gen_strct', F, ['gen_strct'], dict([(k, emits(k)) for k in ('gen_pos', 'gen_doc', 'gen_field', 'gen_insert', 'gen_rolemap_full', 'gen_unique')] + [(k, item(k)) for k in ('gen_search', 'gen_update')]), qfeas=False)
def strct_(mk): check_emit(mk(), 'gen_strct', F, s_strct, retok=ok)
def s_strcts(d, f, q):
    d.lit(' "sq": {'); listof(d, 'strctq', q, lambda d, e: d.call('gen_strct', None, e)); d.lit(' }')
jp('gen_strcts', s_strcts, ['gen_strct'])

def s_json(d, args, cfg, f):
    frag = d.c(d.flag(args, 'ort_lang_json', 'flags', 'ORT_LANG_JSON_FRAGMENT'))
    d.lit('"config": {' if frag else '{ "config": {')
    for k in ('gen_roles', 'gen_enms', 'gen_bitfs'): d.call(k, None, cfg)
    d.call('gen_strcts', None, d.rd(cfg, 'config', 'sq'))
    d.lit('}\n' if frag else ' }}\n')
jp('ort_lang_json', s_json, ['gen_roles', 'gen_enms', 'gen_bitfs', 'gen_strcts'])
