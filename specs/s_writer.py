"""writer.c: a configuration written as ort(5) (P20)"""
from common import *
import libc
F = 'writer.c'
nm = lambda d, R, x: d.rd(x, R, 'name')
def T(p, s): return [(p + x.split(':')[0].upper(), x.split(':')[-1]) for x in s.split()]
MOD = T('MODTYPE_', 'concat dec inc set strset')
OP = T('OPTYPE_', 'equal:eq ge gt le lt nequal:neq like and or streq strneq isnull notnull')
FT = T('FTYPE_', 'bit date epoch int real blob text password email struct enum bitfield:bits')
VT = T('VALIDATE_', 'ge le gt lt eq')
UPA = T('UPACT_', 'restrict nullify cascade default')
ST = T('STYPE_', 'count search list iterate')
RM = T('ROLEMAP_', 'all count delete insert iterate list search update noexport')
def below(d, v, m): return z3.ULT(v, d.const(m))

# the writer's output primitives: assumed to be printf, fputs and putc
def wprint(eng, st, a, n):
    libc.used(eng, 'wprint prints like fprintf')
    fmt = libc.lit_of(eng, a[1])
    if fmt is None: raise Unsupported('non-literal format')
    return libc.outres(eng, st, libc.chunks_of(eng, st, fmt, a[2:], None), None, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
def wputc(eng, st, a, n):
    libc.used(eng, 'wputc prints one character')
    c = z3.simplify(a[1])
    return libc.outres(eng, st, [('lit', chr(c.as_long() & 255))] if z3.is_bv_value(c) else [('chr', c)], None, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
W = dict(wprint=wprint, wputc=wputc)
def wp(name, spec, con=(), requires=None, **k):
    c = dict(W); c.update((x, emits(x)) for x in con)
    @proof('writer:' + name, F, [name], c, **dict(dict(qfeas=False), **k))
    def run(mk): check_emit(mk(), name, F, spec, requires=requires, retok=ok)
def comma(d, i): d.str(z3.If(i > 0, d.eng.lit(','), d.eng.lit('')))
def lst(d, R, q, one):
    def body(d, e, i): comma(d, i); d.lit(' '); one(d, e)
    d.each(R, q, body)
def doc(d, R, x, tabs): d.call('parse_write_comment', None, d.rd(x, R, 'doc'), tabs)

def s_comment(d, w, cp, tabs):
    if d.c(cp == 0): return
    if d.c(z3.UGT(tabs, 1)): d.lit('\n')
    d.times(tabs, lambda d, i: d.lit('\t'))
    d.lit('comment "'); d.str(cp); d.lit('"')
wp('parse_write_comment', s_comment)

INTS = ('FTYPE_BIT', 'FTYPE_BITFIELD', 'FTYPE_EPOCH', 'FTYPE_INT')
LENS = ('FTYPE_BLOB', 'FTYPE_EMAIL', 'FTYPE_TEXT', 'FTYPE_PASSWORD')
def s_field(d, w, x):
    ty = d.rd(x, 'field', 'type')
    is_ = lambda *ns: oneof(ty, *[d.const(n) for n in ns])
    t = lambda *ns: d.c(is_(*ns))
    r = d.rd(x, 'field', 'ref')
    tgt, src = d.rd(r, 'ref', 'target'), d.rd(r, 'ref', 'source')
    d.fmt('\tfield %s', nm(d, 'field', x))
    d.when(z3.And(r != 0, z3.Not(is_('FTYPE_STRUCT'))), lambda d: d.fmt(':%s.%s', nm(d, 'strct', d.rd(tgt, 'field', 'parent')), nm(d, 'field', tgt)))
    d.fmt(' %s', d.choose(ty, FT))
    d.when(z3.And(r != 0, is_('FTYPE_STRUCT')), lambda d: d.fmt(' %s', nm(d, 'field', src)))
    d.when(is_('FTYPE_ENUM'), lambda d: d.fmt(' %s', nm(d, 'enm', d.rd(x, 'field', 'enm'))))
    d.when(is_('FTYPE_BITFIELD'), lambda d: d.fmt(' %s', nm(d, 'bitf', d.rd(x, 'field', 'bitf'))))
    for k in ('rowid', 'unique', 'null', 'noexport'): d.when(d.flag(x, 'field', 'flags', 'FIELD_' + k.upper()), lambda d: d.lit(' ' + k))
    def dflt(d):
        v = lambda k: d.rd(d.rd(x, 'field', 'def'), 'field::anon0', k)
        d.lit(' default ')
        if t('FTYPE_DATE'): d.call('wdate', None, v('integer'))
        elif t(*INTS): d.num('d', v('integer'))
        elif t('FTYPE_REAL'): d.call('wreal', None, v('decimal'))
        elif t('FTYPE_EMAIL', 'FTYPE_TEXT'): d.fmt('"%s"', v('string'))
        else: d.str(nm(d, 'eitem', v('eitem')))
    d.when(d.flag(x, 'field', 'flags', 'FIELD_HASDEF'), dflt)
    def lim(d, e, i):
        d.pc.append(below(d, d.rd(e, 'fvalid', 'type'), 'VALIDATE__MAX'))
        d.fmt(' limit %s ', d.choose(d.rd(e, 'fvalid', 'type'), VT))
        w = lambda k: d.rd(d.rd(d.rd(e, 'fvalid', 'd'), 'fvalid::anon0', 'value'), 'fvalid::anon0::anon0', k)
        c = lambda *ns: d.c(oneof(d.rd(x, 'field', 'type'), *[d.const(n) for n in ns]))
        if c('FTYPE_REAL'): d.call('wreal', None, w('decimal'))
        elif c(*LENS): d.num('u', w('len'))
        else: d.num('d', w('integer'))
    d.each('fvalidq', d.rd(x, 'field', 'fvq'), lim)
    for k in ('actdel', 'actup'):
        a = d.rd(x, 'field', k)
        d.when(a != d.const('UPACT_NONE'), lambda d: d.fmt(' ' + k + ' %s', d.choose(a, UPA)))
    doc(d, 'field', x, 2); d.lit(';\n')
def r_field(d, w, x):
    """a linked field"""
    t = lambda *ns: oneof(d.rd(x, 'field', 'type'), *[d.const(n) for n in ns])
    m = 0
    for k in ('ROWID', 'UNIQUE', 'NULL', 'NOEXPORT', 'HASDEF'): m |= d.const('FIELD_' + k)
    return [below(d, d.rd(x, 'field', 'type'), 'FTYPE__MAX'), below(d, d.rd(x, 'field', 'actdel'), 'UPACT__MAX'), below(d, d.rd(x, 'field', 'actup'), 'UPACT__MAX'),
            (d.rd(x, 'field', 'flags') & ~z3.BitVecVal(m, 32)) == 0,
            z3.Implies(d.flag(x, 'field', 'flags', 'FIELD_HASDEF'), t(*(INTS + ('FTYPE_DATE', 'FTYPE_REAL', 'FTYPE_EMAIL', 'FTYPE_TEXT', 'FTYPE_ENUM')))),
            z3.Implies(d.len('fvalidq', d.rd(x, 'field', 'fvq')) > 0, t(*(INTS + LENS + ('FTYPE_REAL', 'FTYPE_DATE'))))]
M = dict(mergetr=True, merge_threshold=1)
wp('parse_write_field', s_field, ['wdate', 'wreal', 'parse_write_comment'], r_field, **M)

def s_modify(d, w, p):
    mod = d.rd(p, 'update', 'type') == d.const('UP_MODIFY')
    d.fmt('\t%s', z3.If(mod, d.eng.lit('update'), d.eng.lit('delete')))
    mq, cq = d.rd(p, 'update', 'mrq'), d.rd(p, 'update', 'crq')
    n, dc = nm(d, 'update', p), d.rd(p, 'update', 'doc')
    def m(d, e):
        d.str(nm(d, 'field', d.rd(e, 'uref', 'field')))
        v = d.rd(e, 'uref', 'mod'); d.pc.append(below(d, v, 'MODTYPE__MAX'))
        d.when(v != d.const('MODTYPE_SET'), lambda d: d.fmt(' %s', d.choose(v, MOD)))
    def c(d, e):
        d.str(nm(d, 'field', d.rd(e, 'uref', 'field')))
        v = d.rd(e, 'uref', 'op'); d.pc.append(below(d, v, 'OPTYPE__MAX'))
        d.when(v != d.const('OPTYPE_EQUAL'), lambda d: d.fmt(' %s', d.choose(v, OP)))
    if d.c(z3.And(mod, z3.Not(d.flag(p, 'update', 'flags', 'UPDATE_ALL')))): lst(d, 'urefq', mq, m)
    if d.c(z3.And(d.len('urefq', cq) == 0, n == 0, dc == 0)): d.lit(';\n'); return
    if d.c(mod): d.lit(':')
    lst(d, 'urefq', cq, c)
    if d.c(z3.Or(n != 0, dc != 0)):
        d.lit(':')
        if d.c(n != 0): d.fmt(' name %s', n)
        d.call('parse_write_comment', None, dc, 2)
    d.lit(';\n')
wp('parse_write_modify', s_modify, ['parse_write_comment'], lambda d, w, p: [z3.ULT(d.rd(p, 'update', 'type'), 2)])

def s_unique(d, w, p):
    d.lit('\tunique'); lst(d, 'nrefq', d.rd(p, 'unique', 'nq'), lambda d, e: d.str(nm(d, 'field', d.rd(e, 'nref', 'field')))); d.lit(';\n')
wp('parse_write_unique', s_unique)

def s_query(d, w, p):
    f = lambda k: d.rd(p, 'search', k)
    d.fmt('\t%s', d.choose(f('type'), ST))
    def sent(d, e):
        d.str(d.rd(e, 'sent', 'fname')); v = d.rd(e, 'sent', 'op'); d.pc.append(below(d, v, 'OPTYPE__MAX'))
        d.when(v != d.const('OPTYPE_EQUAL'), lambda d: d.fmt(' %s', d.choose(v, OP)))
    lst(d, 'sentq', f('sntq'), sent)
    # one colon before the first of these
    conds = []
    def part(g, fn):
        d.when(g, lambda d: (d.when(z3.Not(z3.Or(*conds)) if conds else z3.BoolVal(True), lambda d: d.lit(':')), fn(d)))
        conds.append(g)
    part(nm(d, 'search', p) != 0, lambda d: d.fmt(' name %s', nm(d, 'search', p)))
    oq = f('ordq')
    part(d.len('ordq', oq) > 0, lambda d: d.lit(' order'))
    lst(d, 'ordq', oq, lambda d, e: (d.str(d.rd(e, 'ord', 'fname')), d.when(d.rd(e, 'ord', 'op') != d.const('ORDTYPE_ASC'), lambda d: d.lit(' desc'))))
    l, o = f('limit'), f('offset')
    part(z3.Or(l != 0, o != 0), lambda d: (d.fmt(' limit %d', l), d.when(o != 0, lambda d: d.fmt(',%d', o))))
    g, a = f('group'), f('aggr')
    part(g != 0, lambda d: d.fmt(' grouprow %s %s %s', d.rd(g, 'group', 'fname'), z3.If(d.rd(a, 'aggr', 'op') == d.const('AGGR_MAXROW'), d.eng.lit('maxrow'), d.eng.lit('minrow')), d.rd(a, 'aggr', 'fname')))
    x = f('dst')
    part(x != 0, lambda d: d.fmt(' distinct %s', z3.If(d.rd(x, 'dstnct', 'fname') == 0, d.eng.lit('.'), d.rd(x, 'dstnct', 'fname'))))
    part(f('doc') != 0, lambda d: d.call('parse_write_comment', None, f('doc'), 2))
    d.lit(';\n')
wp('parse_write_query', s_query, ['parse_write_comment'], lambda d, w, p: [below(d, d.rd(p, 'search', 'type'), 'STYPE__MAX')], **M)

def s_rolemap(d, w, p):
    ty = d.rd(p, 'rolemap', 'type')
    d.lit('\troles'); lst(d, 'rrefq', d.rd(p, 'rolemap', 'rq'), lambda d, e: d.str(nm(d, 'role', d.rd(e, 'rref', 'role'))))
    d.fmt(' { %s', d.choose(ty, RM))
    t = lambda *n: d.c(oneof(ty, *[d.const('ROLEMAP_' + x) for x in n]))
    for ns, k, R in ((('COUNT', 'ITERATE', 'LIST', 'SEARCH'), 's', 'search'), (('DELETE', 'UPDATE'), 'u', 'update'), (('NOEXPORT',), 'f', 'field')):
        if t(*ns):
            x = d.rd(p, 'rolemap::anon0', k)
            if d.c(x != 0): d.fmt(' %s', nm(d, R, x))
            break
    d.lit('; };\n')
wp('parse_write_rolemap', s_rolemap, requires=lambda d, w, p: [below(d, d.rd(p, 'rolemap', 'type'), 'ROLEMAP__MAX')])

def enddoc(d, R, p):
    if d.c(d.rd(p, R, 'doc') != 0): doc(d, R, p, 1); d.lit(';\n')
    d.lit('};\n\n')
def s_strct(d, w, p):
    d.fmt('struct %s {\n', nm(d, 'strct', p))
    for R, k, fn in (('fieldq', 'fq', 'field'), ('searchq', 'sq', 'query'), ('updateq', 'uq', 'modify'), ('updateq', 'dq', 'modify')):
        d.each(R, d.rd(p, 'strct', k), lambda d, e, i, fn=fn: d.call('parse_write_' + fn, None, e))
    if d.c(d.rd(p, 'strct', 'ins') != 0): d.lit('\tinsert;\n')
    for R, k, fn in (('uniqueq', 'nq', 'unique'), ('rolemapq', 'rq', 'rolemap')):
        d.each(R, d.rd(p, 'strct', k), lambda d, e, i, fn=fn: d.call('parse_write_' + fn, None, e))
    enddoc(d, 'strct', p)
wp('parse_write_strct', s_strct, ['parse_write_' + x for x in ('field', 'query', 'modify', 'unique', 'rolemap', 'comment')])

def s_label(d, w, cfg, p, pos):
    d.lit(' jslabel') if d.c(pos == 0) else d.lit('\n\t\tjslabel')
    l = d.rd(p, 'label', 'lang')
    if d.c(l != 0): d.lit('.'); d.str(d.eng.rdmem(d.s0, d.eng.padd(d.rd(cfg, 'config', 'langs'), l, 'unsigned long', 'char *'), 'char *'))
    d.lit(' "')
    p0 = d.rd(p, 'label', 'label')
    sp = lambda c: z3.Or(c == 32, z3.And(z3.UGE(c, 9), z3.ULE(c, 13)))
    def one(d, q, c):
        if not d.c(sp(c)):
            if d.c(z3.And(c == ord('"'), z3.Or(q == p0, d.char(q - 1) != ord('\\')))): d.lit('\\')
            d.chr(c); return q + 1
        d.lit(' ')
        def nx(v):
            j = fresh('ix', I)
            return z3.And(v > q, z3.Not(sp(d.char(v))), z3.Implies(z3.And(j > 0, j < v - q), sp(d.char(q + j))))
        return nx
    d.walk(p0, one)
    d.lit('"')
wp('parse_write_label', s_label, uidx=True)

def labels(d, q): d.each('labelq', q, lambda d, e, i: d.call('parse_write_label', None, None, e, n2b(i, 64)))
def special(d, key, q):
    if d.c(d.len('labelq', q) > 0): d.lit('\t' + key); labels(d, q); d.lit(';\n')
def s_bitf(d, w, cfg, p):
    d.fmt('bitfield %s {\n', nm(d, 'bitf', p))
    def one(d, b, i):
        d.fmt('\titem %s %d', nm(d, 'bitidx', b), d.rd(b, 'bitidx', 'value')); labels(d, d.rd(b, 'bitidx', 'labels')); doc(d, 'bitidx', b, 2); d.lit(';\n')
    d.each('bitidxq', d.rd(p, 'bitf', 'bq'), one)
    special(d, 'isunset', d.rd(p, 'bitf', 'labels_unset')); special(d, 'isnull', d.rd(p, 'bitf', 'labels_null'))
    enddoc(d, 'bitf', p)
wp('parse_write_bitf', s_bitf, ['parse_write_label', 'parse_write_comment'])
def s_enm(d, w, cfg, p):
    d.fmt('enum %s {\n', nm(d, 'enm', p))
    def one(d, b, i):
        auto = d.flag(b, 'eitem', 'flags', 'EITEM_AUTO')
        d.fmt('\titem %s', nm(d, 'eitem', b))
        v = d.rd(b, 'eitem', 'value')
        d.when(auto, lambda d: None, lambda d: d.fmt(' %d', v))
        labels(d, d.rd(b, 'eitem', 'labels')); doc(d, 'eitem', b, 2); d.lit(';')
        d.when(auto, lambda d: d.fmt(' # value %d', v)); d.lit('\n')
    d.each('eitemq', d.rd(p, 'enm', 'eq'), one)
    special(d, 'isnull', d.rd(p, 'enm', 'labels_null'))
    enddoc(d, 'enm', p)
wp('parse_write_enm', s_enm, ['parse_write_label', 'parse_write_comment'])

def s_role(d, w, r, tabs):
    tab = lambda: d.times(tabs, lambda d, i: d.lit('\t'))
    tab(); d.fmt('role %s', nm(d, 'role', r))
    if d.c(d.rd(r, 'role', 'doc') != 0): doc(d, 'role', r, tabs + 1)
    q = d.rd(r, 'role', 'subrq')
    if d.c(d.len('roleq', q) > 0):
        d.lit(' {\n'); d.each('roleq', q, lambda d, e, i: d.call('parse_write_role', None, e, tabs + 1)); tab(); d.lit('}')
    d.lit(';\n')
wp('parse_write_role', s_role, ['parse_write_comment', 'parse_write_role'])
def s_roles(d, w, cfg):
    d.lit('roles {\n')
    def top(d, r, i):
        if d.c(d.streq(nm(d, 'role', r), 'all')): d.each('roleq', d.rd(r, 'role', 'subrq'), lambda d, e, i: d.call('parse_write_role', None, e, 1))
    d.each('roleq', d.rd(cfg, 'config', 'rq'), top)
    d.lit('};\n\n')
wp('parse_write_roles', s_roles, ['parse_write_role'])
def s_file(d, f, cfg):
    if d.c(d.len('roleq', d.rd(cfg, 'config', 'rq')) > 0): d.call('parse_write_roles', None, cfg)
    d.each('enmq', d.rd(cfg, 'config', 'eq'), lambda d, e, i: d.call('parse_write_enm', None, cfg, e))
    d.each('bitfq', d.rd(cfg, 'config', 'bq'), lambda d, e, i: d.call('parse_write_bitf', None, cfg, e))
    d.each('strctq', d.rd(cfg, 'config', 'sq'), lambda d, e, i: d.call('parse_write_strct', None, e))
wp('ort_write_file', s_file, ['parse_write_roles', 'parse_write_enm', 'parse_write_bitf', 'parse_write_strct'])
