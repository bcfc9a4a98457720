"""lang-sql.c: the schema (P02) and its upgrades (P01)"""
from common import *
F = 'lang-sql.c'
MSG = {'gen_warnx': quiet, 'diff_errx': quiet}
U = 'diff::anon0'

def ty(d, x): return d.rd(x, 'diff', 'type')
def is_(d, x, *names): return oneof(ty(d, x), *[d.const(n) for n in names])
def pr(d, x, k): p = d.rd(x, U, k + '_pair'); return d.rd(p, 'diff_' + k, 'from'), d.rd(p, 'diff_' + k, 'into')
def fl(d, f, *n): return d.flag(f, 'field', 'flags', *n)
def ft(d, f): return d.rd(f, 'field', 'type')

# what makes an upgrade impossible (property P01)
def bad_field(d, x, destruct):
    f = d.rd(x, U, 'field'); a, b = pr(d, x, 'field')
    m = d.const('FIELD_ROWID') | d.const('FIELD_NULL')
    st = d.const('FTYPE_STRUCT')
    return z3.Or(
        z3.And(is_(d, x, 'DIFF_ADD_FIELD'), fl(d, f, 'FIELD_ROWID')),
        z3.And(is_(d, x, 'DIFF_DEL_FIELD'), destruct == 0, ft(d, f) != st),
        is_(d, x, 'DIFF_MOD_FIELD_BITF', 'DIFF_MOD_FIELD_ENM', 'DIFF_MOD_FIELD_TYPE', 'DIFF_MOD_FIELD_ACTIONS'),
        z3.And(is_(d, x, 'DIFF_MOD_FIELD_FLAGS'), (d.rd(a, 'field', 'flags') & m) != (d.rd(b, 'field', 'flags') & m)),
        z3.And(is_(d, x, 'DIFF_MOD_FIELD_REFERENCE'), ft(d, a) != st, ft(d, b) != st))
def bad_bitf(d, x, destruct):
    return z3.Or(is_(d, x, 'DIFF_MOD_BITIDX_VALUE'), z3.And(destruct == 0, is_(d, x, 'DIFF_DEL_BITF', 'DIFF_DEL_BITIDX')))
def bad_enm(d, x, destruct):
    return z3.Or(is_(d, x, 'DIFF_MOD_EITEM_VALUE'), z3.And(destruct == 0, is_(d, x, 'DIFF_DEL_ENM', 'DIFF_DEL_EITEM')))
def bad_strct(d, x, destruct):
    return z3.And(destruct == 0, is_(d, x, 'DIFF_DEL_STRCT'))
BAD = dict(gen_check_fields=bad_field, gen_check_bitfs=bad_bitf, gen_check_enms=bad_enm, gen_check_strcts=bad_strct)
def mkbad(p): return lambda d, mq, q, destruct: d.exists('diffq', q, lambda x: p(d, x, destruct))
for k in sorted(BAD): count_proof(k, F, k, mkbad(BAD[k]), contracts=MSG)

def chk(p):
    """call-site contract of the gen_check functions"""
    def f(eng, st, a, n):
        v = fresh('errs', z3.BitVecSort(64))
        d = D(eng, [], [])
        ex = mkbad(p)(d, *a)
        st.pc += d.s0.pc + [z3.ULT(v, 2 ** 40), (v != 0) == ex]
        return [(v, st)]
    return f

# ---------------------------------------------------------------- schema
UP = {0: 'NO ACTION', 1: 'RESTRICT', 2: 'SET NULL', 3: 'CASCADE', 4: 'SET DEFAULT'}
ACT = [('UPACT_NONE', 'NO ACTION'), ('UPACT_RESTRICT', 'RESTRICT'), ('UPACT_NULLIFY', 'SET NULL'), ('UPACT_CASCADE', 'CASCADE'), ('UPACT_DEFAULT', 'SET DEFAULT')]
AFF = [('INTEGER', ('FTYPE_BIT', 'FTYPE_DATE', 'FTYPE_EPOCH', 'FTYPE_INT', 'FTYPE_ENUM', 'FTYPE_BITFIELD')), ('REAL', ('FTYPE_REAL',)), ('BLOB', ('FTYPE_BLOB',)),
       ('TEXT', ('FTYPE_TEXT', 'FTYPE_PASSWORD', 'FTYPE_EMAIL'))]
TAB = [(n, a) for a, ns in AFF for n in ns]
def affinity(d, f): return d.choose(ft(d, f), TAB)
def action(d, v): return d.choose(v, ACT)
def wf_field(d, f):
    """a linked field"""
    st, n = d.const('FTYPE_STRUCT'), d.const('FTYPE__MAX')
    t = ft(d, f)
    return [z3.ULT(t, n), z3.ULT(d.rd(f, 'field', 'actdel'), d.const('UPACT__MAX')), z3.ULT(d.rd(f, 'field', 'actup'), d.const('UPACT__MAX'))]

def s_unique_field(d, f, fd):
    p = d.rd(d.rd(fd, 'field', 'parent'), 'strct', 'name'); n = d.rd(fd, 'field', 'name')
    d.fmt("CREATE UNIQUE INDEX unique_%s__%s ON %s(%s);\n", p, n, p, n)
emit_proof('gen_unique_field', F, s_unique_field)

def names(d, q, sep):
    def one(d, e, i):
        d.str(d.rd(d.rd(e, 'nref', 'field'), 'field', 'name'))
        if d.c(i + 1 < d.len('nrefq', q)): d.lit(sep)
    d.each('nrefq', q, one)
def s_unique(d, f, u):
    p = d.rd(d.rd(u, 'unique', 'parent'), 'strct', 'name'); q = d.rd(u, 'unique', 'nq')
    d.fmt("CREATE UNIQUE INDEX unique_%s__", p); names(d, q, '_')
    d.fmt(" ON %s(", p); names(d, q, ', '); d.lit(");\n")
emit_proof('gen_unique', F, s_unique)

def s_ufdel(d, f, fd): d.fmt("DROP INDEX unique_%s__%s;\n", d.rd(d.rd(fd, 'field', 'parent'), 'strct', 'name'), d.rd(fd, 'field', 'name'))
emit_proof('gen_diff_unique_field_del', F, s_ufdel)
def s_udel(d, f, u):
    d.fmt("DROP INDEX unique_%s__", d.rd(d.rd(u, 'unique', 'parent'), 'strct', 'name')); names(d, d.rd(u, 'unique', 'nq'), '_'); d.lit(";\n")
emit_proof('gen_diff_unique_del', F, s_udel)

def fkey(d, fd, first):
    """one foreign key clause; first: nothing precedes it in the table"""
    r = d.rd(fd, 'field', 'ref')
    if d.c(z3.Or(ft(d, fd) == d.const('FTYPE_STRUCT'), r == 0)): return
    if not d.c(first): d.lit(',')
    t = d.rd(r, 'ref', 'target')
    d.fmt("\n\tFOREIGN KEY(%s) REFERENCES %s(%s)", d.rd(d.rd(r, 'ref', 'source'), 'field', 'name'), d.rd(d.rd(t, 'field', 'parent'), 'strct', 'name'), d.rd(t, 'field', 'name'))
    actions(d, fd, (('DELETE', 'actdel'), ('UPDATE', 'actup')))
def actions(d, fd, order):
    for k, a in order:
        v = d.rd(fd, 'field', a)
        if d.c(v != d.const('UPACT_NONE')): d.fmt(" ON %s %s", k, action(d, v))
def column(d, fd, first, comments):
    if d.c(ft(d, fd) == d.const('FTYPE_STRUCT')): return
    if not d.c(first): d.lit(',')
    d.lit('\n')
    sq = d.const('COMMENT_SQL')
    if d.c(comments != 0): d.call('gen_comment', None, 1, sq, d.rd(fd, 'field', 'doc'))
    if d.c(oneof(ft(d, fd), d.const('FTYPE_EPOCH'), d.const('FTYPE_DATE'))): d.call('gen_comment', None, 1, sq, None)
    d.fmt("\t%s %s", d.rd(fd, 'field', 'name'), affinity(d, fd))
    constraints(d, fd)
def constraints(d, fd):
    if d.c(fl(d, fd, 'FIELD_ROWID')): d.lit(" PRIMARY KEY")
    elif not d.c(fl(d, fd, 'FIELD_NULL')): d.lit(" NOT NULL")

def s_struct(d, f, p, comments):
    if d.c(comments != 0): d.call('gen_comment', None, 0, d.const('COMMENT_SQL'), d.rd(p, 'strct', 'doc'))
    d.fmt("CREATE TABLE %s (", d.rd(p, 'strct', 'name'))
    q = d.rd(p, 'strct', 'fq'); st = d.const('FTYPE_STRUCT')
    col = lambda d: lambda e: ft(d, e) != st
    key = lambda d: lambda e: z3.And(ft(d, e) != st, d.rd(e, 'field', 'ref') != 0)
    d.each('fieldq', q, lambda d, e, i: (d.pc.extend(wf_field(d, e)), d.declared.extend(wf_field(d, e)), column(d, e, z3.Not(before(d, 'fieldq', q, i, col(d))), comments)))
    d.each('fieldq', q, lambda d, e, i: (d.pc.extend(wf_field(d, e)), d.declared.extend(wf_field(d, e)), fkey(d, e, z3.Not(z3.Or(d.exists('fieldq', q, col(d)), before(d, 'fieldq', q, i, key(d)))))))
    d.lit("\n);\n\n")
    u = lambda e: fl(d, e, 'FIELD_UNIQUE')
    d.each('fieldq', q, lambda d, e, i: d.call('gen_unique_field', None, e) if d.c(fl(d, e, 'FIELD_UNIQUE')) else None)
    nq = d.rd(p, 'strct', 'nq')
    d.each('uniqueq', nq, lambda d, e, i: d.call('gen_unique', None, e))
    if d.c(z3.Or(d.exists('fieldq', q, u), d.len('uniqueq', nq) > 0)): d.lit('\n')
emit_proof('gen_struct', F, s_struct, ['gen_comment', 'gen_unique_field', 'gen_unique'], functions=['gen_struct', 'gen_field', 'gen_fkeys'], qfeas=False)

def s_sql(d, args, cfg, f):
    d.lit("PRAGMA foreign_keys=ON;\n\n")
    d.each('strctq', d.rd(cfg, 'config', 'sq'), lambda d, e, i: d.call('gen_struct', None, e, 1))
emit_proof('ort_lang_sql', F, s_sql, ['gen_struct'])

# --------------------------------------------------------------- upgrades
def s_lit(d, f, cp):
    d.lit("'")
    def one(d, p, c):
        esc = z3.And(c == ord('\\'), d.char(p + 1) == ord('"'))
        if d.c(esc): d.lit('"'); return p + 2
        if d.c(c == ord("'")): d.lit("''")
        else: d.chr(c)
        return p + 1
    d.walk(cp, one)
    d.lit("'")
emit_proof('gen_literal', F, s_lit)

def s_fieldnew(d, f, fd):
    d.fmt("ALTER TABLE %s ADD COLUMN %s %s", d.rd(d.rd(fd, 'field', 'parent'), 'strct', 'name'), d.rd(fd, 'field', 'name'), affinity(d, fd))
    constraints(d, fd)
    r = d.rd(fd, 'field', 'ref')
    if d.c(r != 0):
        t = d.rd(r, 'ref', 'target')
        d.fmt(" REFERENCES %s(%s)", d.rd(d.rd(t, 'field', 'parent'), 'strct', 'name'), d.rd(t, 'field', 'name'))
    actions(d, fd, (('UPDATE', 'actup'), ('DELETE', 'actdel')))
    if d.c(fl(d, fd, 'FIELD_HASDEF')):
        d.lit(" DEFAULT ")
        df = d.rd(fd, 'field', 'def')
        t = lambda *n: d.c(oneof(ft(d, fd), *[d.const(x) for x in n]))
        if t('FTYPE_REAL'): d.raw('%.17g', d.rd(df, 'field::anon0', 'decimal'))
        elif t('FTYPE_TEXT', 'FTYPE_EMAIL'): d.call('gen_literal', None, d.rd(df, 'field::anon0', 'string'))
        elif t('FTYPE_ENUM'): d.num('d', d.rd(d.rd(df, 'field::anon0', 'eitem'), 'eitem', 'value'))
        else: d.num('d', d.rd(df, 'field::anon0', 'integer'))
    d.lit(";\n")
def r_fieldnew(d, f, fd):
    """a stored field; only these types have defaults"""
    t = lambda n: ft(d, fd) == d.const(n)
    return [z3.Not(t('FTYPE_STRUCT')), z3.Implies(fl(d, fd, 'FIELD_HASDEF'), z3.Not(z3.Or(t('FTYPE_BLOB'), t('FTYPE_PASSWORD'))))]
emit_proof('gen_diff_field_new', F, s_fieldnew, ['gen_literal'], requires=r_fieldnew)

@proof('lang-sql:gen_prologue', F, ['gen_prologue'])
def prologue(mk):
    """emits the pragma, once"""
    e = mk()
    fd, v, st = e.start('gen_prologue')
    p0 = z3.Select(e.harr(St(), e.memkey('int'), 'int'), v[1])
    for val, s in e.runfn(fd, v, st):
        if not e.feasible(s): continue
        p1 = z3.Select(e.harr(s, e.memkey('int'), 'int'), v[1])
        tr = s.tr.items() if s.tr else []
        e.oblige(s, p1 == 1, 'the pragma is marked as printed')
        if tr: e.oblige(s, z3.And(p0 != 1, z3.BoolVal(tr == [('lit', "PRAGMA foreign_keys=ON;\n\n")])), 'the pragma is printed unless it was before')
        else: e.oblige(s, p0 == 1, 'nothing is printed only if the pragma was before')
        e.oblige(s, val != 0, 'succeeds')

def s_diff(d, args, q, destruct, f, mq):
    """nothing at all if an incompatibility exists, else each change in order"""
    for k in sorted(BAD):
        if d.c(mkbad(BAD[k])(d, mq, q, destruct)): return False
    DQ = 'diffq'
    pro = lambda d: d.call('gen_prologue', None, None)
    fld = lambda d, x: d.rd(x, U, 'field')
    def adds(d, x, i):
        if d.c(is_(d, x, 'DIFF_ADD_STRCT')): pro(d); d.call('gen_struct', None, d.rd(x, U, 'strct'), 0)
    def addf(d, x, i):
        if d.c(z3.And(is_(d, x, 'DIFF_ADD_FIELD'), ft(d, fld(d, x)) != d.const('FTYPE_STRUCT'))):
            pro(d); d.call('gen_diff_field_new', None, fld(d, x))
            if d.c(fl(d, fld(d, x), 'FIELD_UNIQUE')): d.call('gen_unique_field', None, fld(d, x))
    def addu(d, x, i):
        if d.c(is_(d, x, 'DIFF_ADD_UNIQUE')): pro(d); d.call('gen_unique', None, d.rd(x, U, 'unique'))
    def modf(d, x, i):
        if d.c(is_(d, x, 'DIFF_MOD_FIELD_FLAGS')):
            a, b = pr(d, x, 'field')
            ua, ub = d.c(fl(d, a, 'FIELD_UNIQUE')), d.c(fl(d, b, 'FIELD_UNIQUE'))
            if ua and not ub: pro(d); d.call('gen_diff_unique_field_del', None, b)
            if ub and not ua: pro(d); d.call('gen_unique_field', None, a)
    def delu(d, x, i):
        if d.c(is_(d, x, 'DIFF_DEL_FIELD')):
            if d.c(fl(d, fld(d, x), 'FIELD_UNIQUE')): pro(d); d.call('gen_diff_unique_field_del', None, fld(d, x))
        elif d.c(is_(d, x, 'DIFF_DEL_UNIQUE')): pro(d); d.call('gen_diff_unique_del', None, d.rd(x, U, 'unique'))
    def delf(d, x, i):
        if d.c(z3.And(is_(d, x, 'DIFF_DEL_FIELD'), destruct != 0, ft(d, fld(d, x)) != d.const('FTYPE_STRUCT'))):
            pro(d); g = fld(d, x)
            d.fmt("-- ALTER TABLE %s DROP COLUMN %s;\n", d.rd(d.rd(g, 'field', 'parent'), 'strct', 'name'), d.rd(g, 'field', 'name'))
    def dels(d, x, i):
        if d.c(z3.And(is_(d, x, 'DIFF_DEL_STRCT'), destruct != 0)):
            pro(d); d.fmt("DROP TABLE %s;\n", d.rd(d.rd(x, U, 'strct'), 'strct', 'name'))
    for b in (adds, addf, addu, modf, delu, delf, dels): d.each(DQ, q, b)
    return True
con = dict((k, chk(BAD[k])) for k in BAD)
con.update(dict((k, emits(k)) for k in ('gen_prologue', 'gen_struct', 'gen_diff_field_new', 'gen_unique_field', 'gen_unique', 'gen_diff_unique_field_del', 'gen_diff_unique_del')))
con['ort_msgq_free'] = quiet

@proof('lang-sql:ort_lang_diff_sql', F, ['ort_lang_diff_sql'], con, qfeas=False)
def diffsql(mk):
    check_emit(mk(), 'ort_lang_diff_sql', F, s_diff, retok=lambda d, v, r: (v != 0) if r else (v == 0))
