"""lang-c-source.c"""
from common import *
import libc
F = 'lang-c-source.c'

def s_stmt(d, f, r, stmt):
    nm = d.rd(r, 'role', 'name')
    if d.c(d.streq(nm, 'all')) or d.c(d.streq(nm, 'none')): return
    d.fmt("\tif (!sqlbox_role_hier_stmt(hier, ROLE_%s, %s))\n\t\tgoto err;\n", nm, stmt)
emit_proof('gen_role_stmt', F, s_stmt)

def s_all(d, f, cfg, stmt):
    r = d.first('roleq', d.rd(cfg, 'config', 'rq'), lambda e: d.streq(d.rd(e, 'role', 'name'), 'all'))
    if r is None: return
    d.each('roleq', d.rd(r, 'role', 'subrq'), lambda d, e, i: d.call('gen_role_stmt', f, e, stmt))
emit_proof('gen_role_stmt_all', F, s_all, ['gen_role_stmt'], hist=True, qfeas=True)

def s_roles(d, f, cfg, p):
    nm = d.rd(p, 'strct', 'name')
    def fld(d, fd, i):
        if d.c(d.flag(fd, 'field', 'flags', 'FIELD_ROWID', 'FIELD_UNIQUE')):
            d.call('gen_role_stmt_all', f, cfg, form(d, "STMT_%s_BY_UNIQUE_%s", nm, d.rd(fd, 'field', 'name')))
            d.fmt("\tif (!sqlbox_role_hier_stmt(hier, ROLE_default, STMT_%s_BY_UNIQUE_%s))\n\t\tgoto err;\n", nm, d.rd(fd, 'field', 'name'))
    d.each('fieldq', d.rd(p, 'strct', 'fq'), fld)
    def rm(d, m, stmt):
        def one(d, rs, i):
            if d.c(d.streq(d.rd(d.rd(rs, 'rref', 'role'), 'role', 'name'), 'all')): d.call('gen_role_stmt_all', f, cfg, stmt)
            else: d.call('gen_role_stmt', f, d.rd(rs, 'rref', 'role'), stmt)
        d.each('rrefq', d.rd(m, 'rolemap', 'rq'), one)
    def srch(d, s, i):
        m = d.rd(s, 'search', 'rolemap')
        if d.c(m == 0): return
        rm(d, m, form(d, "STMT_%s_BY_SEARCH_%zu", nm, i))
    d.each('searchq', d.rd(p, 'strct', 'sq'), srch)
    ins = d.rd(p, 'strct', 'ins')
    if d.c(ins != 0):
        m = d.rd(ins, 'insert', 'rolemap')
        if d.c(m != 0): rm(d, m, form(d, "STMT_%s_INSERT", nm))
    for q, t in (('uq', 'UPDATE'), ('dq', 'DELETE')):
        def upd(d, s, i, t=t):
            m = d.rd(s, 'update', 'rolemap')
            if d.c(m == 0): return
            rm(d, m, form(d, "STMT_%s_" + t + "_%zu", nm, i))
        d.each('updateq', d.rd(p, 'strct', q), upd)
emit_proof('gen_roles', F, s_roles, ['gen_role_stmt', 'gen_role_stmt_all'], retok=lambda d, v, r: v >= 0, hist=False, qfeas=False)

# ---------------------------------------------------------------- exports (P06)
PUT = {'FTYPE_BIT': 'kjson_putintstrp', 'FTYPE_DATE': 'kjson_putintstrp', 'FTYPE_EPOCH': 'kjson_putintstrp', 'FTYPE_INT': 'kjson_putintstrp', 'FTYPE_REAL': 'kjson_putdoublep', 'FTYPE_BLOB': 'kjson_putstringp',
  'FTYPE_TEXT': 'kjson_putstringp', 'FTYPE_EMAIL': 'kjson_putstringp', 'FTYPE_ENUM': 'kjson_putintstrp', 'FTYPE_BITFIELD': 'kjson_putintstrp'}
def s_out(d, f, fd, pos, sp):
    nm = d.rd(fd, 'field', 'name')
    if d.c(d.flag(fd, 'field', 'flags', 'FIELD_NOEXPORT')): return
    ty = d.rd(fd, 'field', 'type')
    if d.c(ty == d.const('FTYPE_PASSWORD')): return
    rm = d.rd(fd, 'field', 'rolemap')
    if d.c(rm != 0):
        d.lit("switch (db_role_stored(p->priv_store)) {")
        def role(d, rs, i):
            r = d.rd(rs, 'rref', 'role')
            if d.c(d.eng.fnres('has_ancestor', z3.BitVecSort(32), rm, r) == 0): d.call('gen_role', f, r)
        d.each('rrefq', d.rd(rm, 'rolemap', 'rq'), role)
        d.lit("break; default:")
    if d.c(ty != d.const('FTYPE_STRUCT')):
        if d.c(d.flag(fd, 'field', 'flags', 'FIELD_NULL')): d.fmt('if (!p->has_%s) kjson_putnullp(r, "%s"); else ', nm, nm)
        if d.c(ty == d.const('FTYPE_BLOB')): d.fmt('kjson_putstringp(r, "%s", buf', nm); d.any(); d.lit(');')
        elif d.c(oneof(ty, *[d.const('FTYPE_' + x) for x in ('BIT', 'BITFIELD', 'DATE', 'EPOCH', 'INT')])): d.fmt('kjson_putintstrp(r, "%s", ORT_GET_%s_%s(p));', nm, d.rd(d.rd(fd, 'field', 'parent'), 'strct', 'name'), nm)
        else: d.str(d.choose(ty, PUT.items())); d.fmt('(r, "%s", p->%s);', nm, nm)
    else:
        ref = d.rd(fd, 'field', 'ref')
        t = d.rd(d.rd(d.rd(ref, 'ref', 'target'), 'field', 'parent'), 'strct', 'name')
        null = d.c(d.flag(d.rd(ref, 'ref', 'source'), 'field', 'flags', 'FIELD_NULL'))
        if null: d.fmt('if (p->has_%s) {', nm)
        d.fmt('kjson_objp_open(r, "%s"); json_%s_data(r, &p->%s); kjson_obj_close(r);', nm, t, nm)
        if null: d.fmt('} else kjson_putnullp(r, "%s");', nm)
    if d.c(rm != 0): d.lit('break; }')
code_proof('gen_json_out_field', F, s_out, ['gen_role'], ['has_ancestor'])
def s_role(d, f, r):
    nm = d.rd(r, 'role', 'name')
    if not d.c(d.streq(nm, 'all')): d.fmt("case ROLE_%s:", nm)
    d.each('roleq', d.rd(r, 'role', 'subrq'), lambda d, e, i: d.call('gen_role', f, e))
code_proof('gen_role', F, s_role, ['gen_role'])

# ---------------------------------------------------------------- bound parameters (P21)
BTYPE = dict([('FTYPE_' + x, 'SQLBOX_PARM_INT') for x in ('BIT', 'DATE', 'EPOCH', 'INT', 'ENUM', 'BITFIELD')] + [('FTYPE_' + x, 'SQLBOX_PARM_STRING') for x in ('TEXT', 'PASSWORD', 'EMAIL')], FTYPE_REAL='SQLBOX_PARM_FLOAT', FTYPE_BLOB='SQLBOX_PARM_BLOB')
BVAR = {'SQLBOX_PARM_INT': 'iparm', 'SQLBOX_PARM_STRING': 'sparm', 'SQLBOX_PARM_FLOAT': 'fparm', 'SQLBOX_PARM_BLOB': 'bparm'}
def table(d, v, t): return d.choose(v, list(t.items()))
BVARS = dict((k, BVAR[v]) for k, v in BTYPE.items())
def types(d, ty, *ns): return oneof(ty, *[d.const('FTYPE_' + x) for x in ns])
def bound(d, ty, op):
    """a value takes a parameter unless it is checked against a password hash"""
    return z3.Not(z3.And(ty == d.const('FTYPE_PASSWORD'), op != d.const('OPTYPE_STREQ'), op != d.const('OPTYPE_STRNEQ')))
def s_bind(d, f, fd, idx, pos, ptr, tabs, op):
    ty, nm = d.rd(fd, 'field', 'type'), d.rd(fd, 'field', 'name')
    if not d.c(bound(d, ty, op)): return z3.BitVecVal(0, 32)
    star = lambda d: d.when(ptr != 0, lambda d: d.lit('*'))
    d.fmt("parms[%zu].", idx - 1)
    if d.c(types(d, ty, 'DATE', 'EPOCH', 'BIT', 'BITFIELD', 'INT')):
        d.lit("iparm = ")
        if d.c(types(d, ty, 'DATE', 'EPOCH')): d.lit("(time_t)")
        d.fmt("ORT_GETV_%s_%s(", d.rd(d.rd(fd, 'field', 'parent'), 'strct', 'name'), nm)
        star(d); d.fmt("v%zu);", pos)
    else:
        d.str(table(d, ty, BVARS)); d.lit(" = "); star(d); d.fmt("v%zu;", pos)
    d.fmt("parms[%zu].type = ", idx - 1); d.str(table(d, ty, BTYPE)); d.lit(';')
    if d.c(ty == d.const('FTYPE_BLOB')): d.fmt("parms[%zu].sz = v%zu_sz;", idx - 1, pos)
    return z3.BitVecVal(1, 32)
same = lambda d, v, r: v == r
nostruct = lambda i: lambda d, *a: [d.rd(a[i], 'field', 'type') != d.const('FTYPE_STRUCT'), z3.ULT(d.rd(a[i], 'field', 'type'), d.const('FTYPE__MAX'))]
code_proof('gen_bind', F, s_bind, retok=same, requires=nostruct(1))
def c_bind(name, i, j):
    def f(eng, st, a, n):
        d = D(eng, [], []); d.s0 = st
        ty = eng.rd(st, ('field', 'type'), a[i], 'enum ftype')
        eng.oblige(st, ty != d.const('FTYPE_STRUCT'), 'a bound field is no structure')
        st.emit(('call', name, tuple(a)))
        return [(z3.If(bound(d, ty, a[j]), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)), st)]
    return f
CBIND = dict(gen_bind=c_bind('gen_bind', 1, 6), gen_bind_val=c_bind('gen_bind_val', 1, 4))
def s_bindval(d, f, fd, idx, pos, op):
    d.call('gen_bind', f, fd, idx, pos, 0, 1, op)
    return z3.If(bound(d, d.rd(fd, 'field', 'type'), op), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
code_proof('gen_bind_val', F, s_bindval, retok=same, requires=nostruct(1), con=CBIND)
def s_hash(d, f, pos, hpos, tabs): d.fmt("parms[%zu].sparm = hash%zu; parms[%zu].type = SQLBOX_PARM_STRING;", pos - 1, hpos, pos - 1)
code_proof('gen_bind_hash', F, s_hash)
def s_newpass(d, f, ptr, pos, npos):
    d.lit('crypt_newhash(')
    d.when(ptr != 0, lambda d: d.lit('*'))
    d.fmt('v%zu, "blowfish,a", hash%zu, sizeof(hash%zu));', npos, pos, pos)
code_proof('gen_newpass', F, s_newpass)
def s_checkpass(d, f, ptr, pos, sent):
    """true exactly if the password does not match (or is missing)"""
    fd = d.rd(sent, 'sent', 'field'); nm = d.rd(fd, 'field', 'name'); sn = d.rd(sent, 'sent', 'name')
    def obj(d):
        d.lit('p')
        if d.c(ptr != 0): d.lit('->')
        else: d.lit('.')
        if d.c(sn != 0): d.fmt('%s.', sn)
    d.fmt('(v%zu == NULL || ', pos)
    if d.c(d.flag(fd, 'field', 'flags', 'FIELD_NULL')): d.lit('!'); obj(d); d.fmt('has_%s || ', nm)
    d.fmt('crypt_checkpass(v%zu, ', pos); obj(d); d.fmt('%s) == ', nm)
    if d.c(d.is_(sent, 'sent', 'op', 'OPTYPE_NEQUAL')): d.lit('0)')
    else: d.lit('-1)')
code_proof('gen_checkpass', F, s_checkpass)

def binary(d, x, rec='sent'): return z3.ULT(d.rd(x, rec, 'op'), d.const('OPTYPE_ISNULL'))
def xty(d, x, rec='sent'): return d.rd(d.rd(x, rec, 'field'), 'field', 'type')
def boundsent(d, x, rec='sent'): return z3.And(binary(d, x, rec), bound(d, xty(d, x, rec), d.rd(x, rec, 'op')))
SENTS = counts('sentq', binary=binary, bound=boundsent)
def sents(d, s):
    """no condition of a search names a structure"""
    h = d.rd(s, 'search', 'sntq')
    return [d.forall('sentq', h, lambda x: z3.And(xty(d, x) != d.const('FTYPE_STRUCT'), z3.ULT(xty(d, x), d.const('FTYPE__MAX'))))]
def qparts(d, f, s, num):
    h = d.rd(s, 'search', 'sntq')
    dst = d.rd(s, 'search', 'dst')
    par = d.rd(s, 'search', 'parent')
    ret = par if not d.c(dst != 0) else d.rd(dst, 'dstnct', 'strct')
    n = count(d, 'bound', 'sentq', h)
    return h, d.rd(par, 'strct', 'name'), ret, n
def qbind(d, f, h, n):
    if d.c(n != 0): d.lit('memset(parms, 0, sizeof(parms));')
def qbinds(d, f, h):
    def one(d, x, i):
        if d.c(binary(d, x)): d.call('gen_bind_val', f, d.rd(x, 'sent', 'field'), 1 + count(d, 'bound', 'sentq', h, i), 1 + count(d, 'binary', 'sentq', h, i), d.rd(x, 'sent', 'op'))
    d.each('sentq', h, one)
def qparms(d, n):
    if d.c(n != 0): d.fmt('struct sqlbox_parm parms[%zu];', n)
def qname(d, n):
    if d.c(n != 0): d.lit('parms')
    else: d.lit('NULL')
def qpass(d, f, h, ptr, pre, post):
    def one(d, x, i):
        if d.c(z3.And(binary(d, x), z3.Not(boundsent(d, x)))):
            d.lit(pre); d.call('gen_checkpass', f, ptr, 1 + count(d, 'binary', 'sentq', h, i), x); post(d)
    d.each('sentq', h, one)
def nullrefs(d, ret, arg):
    if d.c(d.flag(ret, 'strct', 'flags', 'STRCT_HAS_NULLREFS')): d.fmt('db_%s_reffind(ctx, ' + arg + ');', d.rd(ret, 'strct', 'name'))
NOMEM = 'if (p == NULL) { perror(NULL); exit(EXIT_FAILURE); }'
def s_iter(d, f, cfg, s, num):
    h, nm, ret, n = qparts(d, f, s, num); rn = d.rd(ret, 'strct', 'name')
    d.call('gen_func_db_search', f, s, 0)
    d.fmt('{ struct %s p; const struct sqlbox_parmset *res; struct sqlbox *db = ctx->db;', rn)
    qparms(d, n); qbind(d, f, h, n); qbinds(d, f, h)
    d.fmt('if (!sqlbox_prepare_bind_async (db, 0, STMT_%s_BY_SEARCH_%zu, %zu, ', nm, num, n); qname(d, n)
    d.fmt(', SQLBOX_STMT_MULTI)) exit(EXIT_FAILURE); while ((res = sqlbox_step(db, 0)) != NULL && res->psz) { db_%s_fill_r(ctx, &p, res, NULL);', rn)
    nullrefs(d, ret, '&p')
    qpass(d, f, h, 0, 'if ', lambda d: d.fmt('{ db_%s_unfill_r(&p); continue; }', nm))
    d.fmt('(*cb)(&p, arg); db_%s_unfill_r(&p); } if (res == NULL) exit(EXIT_FAILURE); if (!sqlbox_finalise(db, 0)) exit(EXIT_FAILURE); }', rn)
def s_list(d, f, cfg, s, num):
    h, nm, ret, n = qparts(d, f, s, num); rn = d.rd(ret, 'strct', 'name')
    d.call('gen_func_db_search', f, s, 0)
    d.fmt('{ struct %s *p; struct %s_q *q; const struct sqlbox_parmset *res; struct sqlbox *db = ctx->db;', rn, rn)
    qparms(d, n); qbind(d, f, h, n)
    d.fmt('q = malloc(sizeof(struct %s_q)); if (q == NULL) { perror(NULL); exit(EXIT_FAILURE); } TAILQ_INIT(q);', rn)
    qbinds(d, f, h)
    d.fmt('if (!sqlbox_prepare_bind_async (db, 0, STMT_%s_BY_SEARCH_%zu, %zu, ', nm, num, n); qname(d, n)
    d.fmt(', SQLBOX_STMT_MULTI)) exit(EXIT_FAILURE); while ((res = sqlbox_step(db, 0)) != NULL && res->psz) { p = malloc(sizeof(struct %s));' + NOMEM + 'db_%s_fill_r(ctx, p, res, NULL);', rn, rn)
    nullrefs(d, ret, 'p')
    qpass(d, f, h, 1, 'if ', lambda d: d.fmt('{ db_%s_free(p); p = NULL; continue; }', nm))
    d.lit('TAILQ_INSERT_TAIL(q, p, _entries); } if (res == NULL) exit(EXIT_FAILURE); if (!sqlbox_finalise(db, 0)) exit(EXIT_FAILURE); return q; }')
def s_count(d, f, cfg, s, num):
    h, nm, ret, n = qparts(d, f, s, num)
    d.call('gen_func_db_search', f, s, 0)
    d.lit('{ const struct sqlbox_parmset *res; int64_t val; struct sqlbox *db = ctx->db;')
    qparms(d, n); qbind(d, f, h, n); qbinds(d, f, h)
    d.fmt('if (!sqlbox_prepare_bind_async (db, 0, STMT_%s_BY_SEARCH_%zu, %zu, ', nm, num, n); qname(d, n)
    d.lit(', 0)) exit(EXIT_FAILURE); if ((res = sqlbox_step(db, 0)) == NULL) exit(EXIT_FAILURE); else if (res->psz != 1) exit(EXIT_FAILURE); if (sqlbox_parm_int(&res->ps[0], &val) == -1) exit(EXIT_FAILURE); sqlbox_finalise(db, 0); return (uint64_t)val; }')
def s_search(d, f, cfg, s, num):
    h, nm, ret, n = qparts(d, f, s, num); rn = d.rd(ret, 'strct', 'name')
    d.call('gen_func_db_search', f, s, 0)
    d.fmt('{ struct %s *p = NULL; const struct sqlbox_parmset *res; struct sqlbox *db = ctx->db;', rn)
    qparms(d, n); qbind(d, f, h, n); qbinds(d, f, h)
    d.fmt('if (!sqlbox_prepare_bind_async (db, 0, STMT_%s_BY_SEARCH_%zu, %zu, ', nm, num, n); qname(d, n)
    d.fmt(', 0)) exit(EXIT_FAILURE); if ((res = sqlbox_step(db, 0)) != NULL && res->psz) { p = malloc(sizeof(struct %s));' + NOMEM + 'db_%s_fill_r(ctx, p, res, NULL);', rn, rn)
    nullrefs(d, ret, 'p')
    qpass(d, f, h, 1, 'if (p != NULL && ', lambda d: d.fmt(') { db_%s_free(p); p = NULL; }', nm))
    d.lit('} if (res == NULL) exit(EXIT_FAILURE); if (!sqlbox_finalise(db, 0)) exit(EXIT_FAILURE); return p; }')
for n_, s_ in (('gen_iterator', s_iter), ('gen_list', s_list), ('gen_count', s_count), ('gen_search', s_search)):
    code_proof(n_, F, s_, ['gen_func_db_search', 'gen_checkpass'], con=CBIND, hints=(SENTS,), hist=False, requires=lambda d, f, cfg, s, num: sents(d, s))

def field(d, x): return d.rd(x, 'field', 'name')
def insfield(d, x): return z3.And(d.rd(x, 'field', 'type') != d.const('FTYPE_STRUCT'), z3.Not(d.flag(x, 'field', 'flags', 'FIELD_ROWID')))
def ispass(d, x): return d.rd(x, 'field', 'type') == d.const('FTYPE_PASSWORD')
INS = counts('fieldq', ins=insfield, password=ispass)
def nullf(d, x): return d.c(d.flag(x, 'field', 'flags', 'FIELD_NULL'))
def fieldtypes(d, h):
    """field types are known, and only integers are row identifiers"""
    return [d.forall('fieldq', h, lambda x: z3.And(z3.ULT(d.rd(x, 'field', 'type'), d.const('FTYPE__MAX')), z3.Implies(d.flag(x, 'field', 'flags', 'FIELD_ROWID'), d.rd(x, 'field', 'type') == d.const('FTYPE_INT'))))]
def s_insert(d, f, cfg, p):
    if d.c(d.rd(p, 'strct', 'ins') == 0): return
    h = d.rd(p, 'strct', 'fq'); n = count(d, 'ins', 'fieldq', h); nm = d.rd(p, 'strct', 'name')
    d.call('gen_func_db_insert', f, p, 0)
    d.lit('{ enum sqlbox_code rc; int64_t id = -1; struct sqlbox *db = ctx->db;')
    qparms(d, n)
    def hashes(d, x, i):
        if d.c(ispass(d, x)): d.fmt('char hash%zu[64];', 1 + count(d, 'password', 'fieldq', h, i))
    d.each('fieldq', h, hashes)
    def mk(d, x, i):
        if not d.c(ispass(d, x)): return
        v = 1 + count(d, 'ins', 'fieldq', h, i)
        if nullf(d, x): d.fmt('if (v%zu != NULL)', v)
        d.call('gen_newpass', f, d.rd(x, 'field', 'flags') & d.const('FIELD_NULL'), 1 + count(d, 'password', 'fieldq', h, i), v)
    d.each('fieldq', h, mk)
    qbind(d, f, h, n)
    def bind(d, x, i):
        if not d.c(insfield(d, x)): return
        v = 1 + count(d, 'ins', 'fieldq', h, i)
        null = nullf(d, x)
        if null: d.fmt('if (v%zu == NULL) { parms[%zu].type = SQLBOX_PARM_NULL; } else {', v, v - 1)
        if d.c(ispass(d, x)): d.call('gen_bind_hash', f, v, 1 + count(d, 'password', 'fieldq', h, i), None)
        else: d.call('gen_bind', f, x, v, v, d.rd(x, 'field', 'flags') & d.const('FIELD_NULL'), None, None)
        if null: d.lit('}')
    d.each('fieldq', h, bind)
    d.fmt('rc = sqlbox_exec(db, 0, STMT_%s_INSERT, %zu, ', nm, n); qname(d, n)
    d.lit(', SQLBOX_STMT_CONSTRAINT); if (rc == SQLBOX_CODE_ERROR) exit(EXIT_FAILURE); else if (rc != SQLBOX_CODE_OK) return (-1); if (!sqlbox_lastid(db, 0, &id)) exit(EXIT_FAILURE); return id; }')
code_proof('gen_insert', F, s_insert, ['gen_func_db_insert', 'gen_newpass', 'gen_bind_hash'], con=CBIND, hints=(INS,), hist=False, requires=lambda d, f, cfg, p: fieldtypes(d, d.rd(p, 'strct', 'fq')))

def hashed(d, x): return z3.And(xty(d, x, 'uref') == d.const('FTYPE_PASSWORD'), d.rd(x, 'uref', 'mod') != d.const('MODTYPE_STRSET'))
UPS = counts('urefq', all=lambda d, x: z3.BoolVal(True), hashed=hashed, binary=lambda d, x: binary(d, x, 'uref'), bound=lambda d, x: boundsent(d, x, 'uref'))
def s_update(d, f, cfg, up, num):
    m, c = d.rd(up, 'update', 'mrq'), d.rd(up, 'update', 'crq')
    nm = d.rd(d.rd(up, 'update', 'parent'), 'strct', 'name')
    C = lambda n, h, i=None: count(d, n, 'urefq', h, i)
    n = C('all', m) + C('binary', c)
    d.call('gen_func_db_update', f, up, 0)
    d.lit('{ enum sqlbox_code c; struct sqlbox *db = ctx->db;')
    qparms(d, n)
    fld = lambda d, x: d.rd(x, 'uref', 'field')
    def hashes(d, x, i):
        if d.c(hashed(d, x)): d.fmt('char hash%zu[64];', 1 + C('hashed', m, i))
    d.each('urefq', m, hashes)
    def mk(d, x, i):
        if not d.c(hashed(d, x)): return
        if nullf(d, fld(d, x)): d.fmt('if (v%zu != NULL)', 1 + C('all', m, i))
        d.call('gen_newpass', f, d.rd(fld(d, x), 'field', 'flags') & d.const('FIELD_NULL'), 1 + C('hashed', m, i), 1 + C('all', m, i))
    d.each('urefq', m, mk)
    qbind(d, f, m, n)
    def bind(d, x, i):
        v = 1 + C('all', m, i)
        null = nullf(d, fld(d, x))
        if null: d.fmt('if (v%zu == NULL) parms[%zu].type = SQLBOX_PARM_NULL; else {', v, v - 1)
        if d.c(hashed(d, x)): d.call('gen_bind_hash', f, v, 1 + C('hashed', m, i), None)
        else: d.call('gen_bind', f, fld(d, x), v, v, d.rd(fld(d, x), 'field', 'flags') & d.const('FIELD_NULL'), None, d.const('OPTYPE_STREQ'))
        if null: d.lit('}')
    d.each('urefq', m, bind)
    def cond(d, x, i):
        if not d.c(binary(d, x, 'uref')): return
        d.call('gen_bind', f, fld(d, x), 1 + C('all', m) + C('bound', c, i), 1 + C('all', m) + C('binary', c, i), 0, None, d.rd(x, 'uref', 'op'))
    d.each('urefq', c, cond)
    if d.c(d.is_(up, 'update', 'type', 'UP_MODIFY')):
        d.fmt('c = sqlbox_exec (db, 0, STMT_%s_UPDATE_%zu, %zu, ', nm, num, n); qname(d, n)
        d.lit(', SQLBOX_STMT_CONSTRAINT); if (c == SQLBOX_CODE_ERROR) exit(EXIT_FAILURE); return (c == SQLBOX_CODE_OK) ? 1 : 0; }')
    else:
        d.fmt('c = sqlbox_exec (db, 0, STMT_%s_DELETE_%zu, %zu, ', nm, num, n); qname(d, n)
        d.lit(', 0); if (c != SQLBOX_CODE_OK) exit(EXIT_FAILURE); }')
def ups(d, *a):
    ok = lambda x: z3.And(xty(d, x, 'uref') != d.const('FTYPE_STRUCT'), z3.ULT(xty(d, x, 'uref'), d.const('FTYPE__MAX')))
    return [d.forall('urefq', d.rd(a[2], 'update', q), ok) for q in ('mrq', 'crq')]
code_proof('gen_update', F, s_update, ['gen_func_db_update', 'gen_newpass', 'gen_bind_hash'], con=CBIND, hints=(UPS,), hist=False, requires=ups)

def ref(d, x):
    r = d.rd(x, 'field', 'ref')
    return d.rd(r, 'ref', 'source'), d.rd(r, 'ref', 'target')
def isstruct(d, x): return d.rd(x, 'field', 'type') == d.const('FTYPE_STRUCT')
def nullref(d, x): return d.flag(ref(d, x)[0], 'field', 'flags', 'FIELD_NULL')
def tname(d, x): return d.rd(d.rd(ref(d, x)[1], 'field', 'parent'), 'strct', 'name')
def s_reffind_bind(d, f, x):
    ty = d.rd(x, 'field', 'type')
    d.lit('memset(&parm, 0, sizeof(parm)); parm.type = '); d.str(table(d, ty, BTYPE)); d.lit(';')
    if d.c(types(d, ty, 'BIT', 'BITFIELD', 'DATE', 'EPOCH', 'INT')): d.fmt('parm.iparm = ORT_GET_%s_%s(p);', d.rd(d.rd(x, 'field', 'parent'), 'strct', 'name'), field(d, x))
    else:
        if d.c(types(d, ty, 'BLOB')): d.fmt('parm.sz = p->%s_sz;', field(d, x))
        d.lit('parm.'); d.str(table(d, ty, BVARS)); d.fmt(' = p->%s;', field(d, x))
code_proof('gen_reffind_bind', F, s_reffind_bind, requires=nostruct(1))
def s_reffind(d, f, cfg, p):
    if not d.c(d.flag(p, 'strct', 'flags', 'STRCT_HAS_NULLREFS')): return
    h = d.rd(p, 'strct', 'fq'); nm = d.rd(p, 'strct', 'name')
    d.fmt('static void db_%s_reffind(struct ort *ctx, struct %s *p) { struct sqlbox *db = ctx->db;', nm, nm)
    d.when(d.exists('fieldq', h, lambda x: z3.And(isstruct(d, x), nullref(d, x))), lambda d: d.lit('const struct sqlbox_parmset *res; struct sqlbox_parm parm;'))
    def one(d, x, i):
        if not d.c(isstruct(d, x)): return
        src, tgt = ref(d, x)
        if d.c(nullref(d, x)):
            d.fmt('if (p->has_%s) {', field(d, src)); d.call('gen_reffind_bind', f, src)
            d.fmt('if (!sqlbox_prepare_bind_async (db, 0, STMT_%s_BY_UNIQUE_%s, 1, &parm, 0)) exit(EXIT_FAILURE); if ((res = sqlbox_step(db, 0)) == NULL) exit(EXIT_FAILURE); db_%s_fill_r(ctx, &p->%s, res, NULL); if (!sqlbox_finalise(db, 0)) exit(EXIT_FAILURE); p->has_%s = 1; }',
                tname(d, x), field(d, tgt), tname(d, x), field(d, x), field(d, x))
        if d.c(d.flag(d.rd(tgt, 'field', 'parent'), 'strct', 'flags', 'STRCT_HAS_NULLREFS')): d.fmt('db_%s_reffind(ctx, &p->%s);', tname(d, x), field(d, x))
    d.each('fieldq', h, one)
    d.lit('}')
code_proof('gen_reffind', F, s_reffind, ['gen_reffind_bind'])
def s_fill_r(d, f, cfg, p):
    nm = d.rd(p, 'strct', 'name')
    d.fmt('static void db_%s_fill_r(struct ort *ctx, struct %s *p, const struct sqlbox_parmset *res, size_t *pos) { size_t i = 0; if (pos == NULL) pos = &i; db_%s_fill(ctx, p, res, pos);', nm, nm, nm)
    def one(d, x, i):
        if d.c(z3.And(isstruct(d, x), z3.Not(nullref(d, x)))): d.fmt('db_%s_fill_r(ctx, &p->%s, res, pos);', tname(d, x), field(d, x))
    d.each('fieldq', d.rd(p, 'strct', 'fq'), one)
    d.lit('}')
code_proof('gen_fill_r', F, s_fill_r)
GETTER = dict([('FTYPE_' + x, 'sqlbox_parm_int') for x in ('BIT', 'DATE', 'EPOCH', 'INT', 'ENUM', 'BITFIELD')] + [('FTYPE_' + x, 'sqlbox_parm_string_alloc') for x in ('TEXT', 'PASSWORD', 'EMAIL')], FTYPE_REAL='sqlbox_parm_float', FTYPE_BLOB='sqlbox_parm_blob_alloc')
def s_fill_field(d, f, x):
    nm = field(d, x); ty = d.rd(x, 'field', 'type')
    if d.c(isstruct(d, x)):
        if d.c(nullref(d, x)): d.fmt('p->has_%s = 0;', nm)
        return
    null = nullf(d, x)
    if null: d.fmt('p->has_%s = set->ps[*pos].type != SQLBOX_PARM_NULL; if (p->has_%s) {', nm, nm)
    d.lit('if ('); d.str(table(d, ty, GETTER)); d.lit('(&set->ps[(*pos)++], ')
    par = d.rd(d.rd(x, 'field', 'parent'), 'strct', 'name')
    if d.c(types(d, ty, 'BLOB')): d.fmt('&p->%s, &p->%s_sz) == -1) exit(EXIT_FAILURE);', nm, nm)
    elif d.c(types(d, ty, 'ENUM')): d.fmt('&tmpint) == -1) exit(EXIT_FAILURE); p->%s = (enum %s)tmpint;', nm, d.rd(d.rd(x, 'field', 'enm'), 'enm', 'name'))
    elif d.c(types(d, ty, 'DATE', 'EPOCH')): d.fmt('&tmpint) == -1) exit(EXIT_FAILURE); ORT_SET_%s_%s(p, (time_t)tmpint);', par, nm)
    elif d.c(types(d, ty, 'BIT', 'BITFIELD', 'INT')): d.fmt('&tmpint) == -1) exit(EXIT_FAILURE); ORT_SET_%s_%s(p, tmpint);', par, nm)
    elif d.c(types(d, ty, 'REAL')): d.fmt('&p->%s) == -1) exit(EXIT_FAILURE);', nm)
    else: d.fmt('&p->%s, NULL) == -1) exit(EXIT_FAILURE);', nm)
    if null: d.lit('} else (*pos)++;')
def c_src(eng, st, a, n):
    """contract of print_src: the formatted text and a line break, but for its layout"""
    fmt = libc.lit_of(eng, a[2])
    if fmt is None: raise Unsupported('non-literal format')
    for c in libc.chunks_of(eng, st, fmt, a[3:], None): st.emit(c)
    return [(z3.BitVecVal(1, 32), st)]
knowntype = lambda i: lambda d, *a: [z3.ULT(d.rd(a[i], 'field', 'type'), d.const('FTYPE__MAX'))]
code_proof('gen_fill_field', F, s_fill_field, con=dict(print_src=c_src), requires=knowntype(1))
def s_fill(d, f, cfg, p):
    nm = d.rd(p, 'strct', 'name'); h = d.rd(p, 'strct', 'fq')
    d.fmt('static void db_%s_fill(struct ort *ctx, struct %s *p, const struct sqlbox_parmset *set, size_t *pos) { size_t i = 0;', nm, nm)
    d.when(d.exists('fieldq', h, lambda x: types(d, d.rd(x, 'field', 'type'), 'BIT', 'BITFIELD', 'ENUM', 'DATE', 'EPOCH', 'INT')), lambda d: d.lit('int64_t tmpint;'))
    d.lit('if (pos == NULL) pos = &i; memset(p, 0, sizeof(*p));')
    d.each('fieldq', h, lambda d, x, i: d.call('gen_fill_field', f, x))
    if d.c(d.len('roleq', d.rd(cfg, 'config', 'rq')) != 0): d.lit('p->priv_store = malloc(sizeof(struct ort_store));if (p->priv_store == NULL) { perror(NULL); exit(EXIT_FAILURE); } p->priv_store->role = ctx->role;')
    d.lit('}')
code_proof('gen_fill', F, s_fill, ['gen_fill_field'])
def s_unfill(d, f, cfg, p):
    nm = d.rd(p, 'strct', 'name')
    d.fmt('static void db_%s_unfill(struct %s *p) { if (p == NULL) return;', nm, nm)
    def one(d, x, i):
        if d.c(types(d, d.rd(x, 'field', 'type'), 'BLOB', 'PASSWORD', 'TEXT', 'EMAIL')): d.fmt('free(p->%s);', field(d, x))
    d.each('fieldq', d.rd(p, 'strct', 'fq'), one)
    if d.c(d.len('roleq', d.rd(cfg, 'config', 'rq')) != 0): d.lit('free(p->priv_store);')
    d.lit('}')
code_proof('gen_unfill', F, s_unfill)
def s_unfill_r(d, f, p):
    nm = d.rd(p, 'strct', 'name')
    d.fmt('static void db_%s_unfill_r(struct %s *p) { if (p == NULL) return; db_%s_unfill(p);', nm, nm, nm)
    def one(d, x, i):
        if not d.c(isstruct(d, x)): return
        if d.c(nullref(d, x)): d.fmt('if (p->has_%s)', field(d, ref(d, x)[0]))
        d.fmt('db_%s_unfill_r(&p->%s);', tname(d, x), field(d, x))
    d.each('fieldq', d.rd(p, 'strct', 'fq'), one)
    d.lit('}')
code_proof('gen_unfill_r', F, s_unfill_r)
def s_free(d, f, p):
    d.call('gen_func_db_free', f, p, 0); d.fmt('{ db_%s_unfill_r(p); free(p); }', d.rd(p, 'strct', 'name'))
code_proof('gen_free', F, s_free, ['gen_func_db_free'])
def s_freeq(d, f, p):
    if not d.c(d.flag(p, 'strct', 'flags', 'STRCT_HAS_QUEUE')): return
    nm = d.rd(p, 'strct', 'name')
    d.call('gen_func_db_freeq', f, p, 0); d.fmt('{ struct %s *p; if (q == NULL) return; while ((p = TAILQ_FIRST(q)) != NULL) { TAILQ_REMOVE(q, p, _entries); db_%s_free(p); } free(q); }', nm, nm)
code_proof('gen_freeq', F, s_freeq, ['gen_func_db_freeq'])

# ---------------------------------------------------------------- validators (P07)
NEG = dict(VALIDATE_GE='<', VALIDATE_LE='>', VALIDATE_GT='<=', VALIDATE_LT='>=', VALIDATE_EQ='!=')
def fv(d, v, k): return d.rd(d.rd(d.rd(v, 'fvalid', 'd'), 'fvalid::anon0', 'value'), 'fvalid::anon0::anon0', k)
def s_valids_field(d, f, x, v):
    ty = d.rd(x, 'field', 'type'); op = table(d, d.rd(v, 'fvalid', 'type'), NEG)
    d.lit('if (p->')
    if d.c(types(d, ty, 'BIT', 'BITFIELD', 'DATE', 'EPOCH', 'INT')): d.lit('parsed.i '); d.str(op); d.num('d', fv(d, v, 'integer'))
    elif d.c(types(d, ty, 'REAL')): d.lit('parsed.d '); d.str(op); d.raw('%.17g', fv(d, v, 'decimal'))
    else: d.lit('valsz '); d.str(op); d.num('u', fv(d, v, 'len'))
    d.lit(') return 0;')
VFN = dict(FTYPE_BIT='kvalid_bit', FTYPE_DATE='kvalid_date', FTYPE_EPOCH='kvalid_int', FTYPE_INT='kvalid_int', FTYPE_REAL='kvalid_double', FTYPE_TEXT='kvalid_string', FTYPE_PASSWORD='kvalid_string', FTYPE_EMAIL='kvalid_email', FTYPE_ENUM='kvalid_int', FTYPE_BITFIELD='kvalid_int')
code_proof('gen_valids_field', F, s_valids_field, requires=lambda d, f, x, v: [z3.ULT(d.rd(x, 'field', 'type'), d.const('FTYPE__MAX')), z3.ULT(d.rd(v, 'fvalid', 'type'), d.const('VALIDATE__MAX'))])
def s_valids(d, f, p):
    def one(d, x, i):
        ty = d.rd(x, 'field', 'type'); q = d.rd(x, 'field', 'fvq')
        if d.c(types(d, ty, 'STRUCT', 'BLOB')): return
        if d.c(z3.And(ty != d.const('FTYPE_ENUM'), d.len('fvalidq', q) == 0)): return
        d.call('gen_func_valid', f, x, 0)
        d.lit('{ if (!'); d.str(table(d, ty, VFN)); d.lit('(p)) return 0;')
        if d.c(types(d, ty, 'ENUM')):
            d.lit('switch(p->parsed.i) {')
            def item(d, e, j): d.lit('case '); d.num('d', d.rd(e, 'eitem', 'value')); d.lit(':')
            d.each('eitemq', d.rd(d.rd(x, 'field', 'enm'), 'enm', 'eq'), item)
            d.lit('break; default: return 0; }')
        d.each('fvalidq', q, lambda d, v, j: d.call('gen_valids_field', f, x, v))
        d.lit('return 1; }')
    d.each('fieldq', d.rd(p, 'strct', 'fq'), one)
def s_valid(d, f, p):
    def one(d, x, i):
        ty = d.rd(x, 'field', 'type')
        if d.c(types(d, ty, 'STRUCT')): return
        pn, nm = d.rd(p, 'strct', 'name'), field(d, x)
        d.lit('{')
        if d.c(types(d, ty, 'BLOB')): d.lit('NULL')
        elif d.c(z3.And(ty != d.const('FTYPE_ENUM'), d.len('fvalidq', d.rd(x, 'field', 'fvq')) == 0)): d.str(table(d, ty, VFN))
        else: d.fmt('valid_%s_%s', pn, nm)
        d.fmt(', "%s-%s" },', pn, nm)
    d.each('fieldq', d.rd(p, 'strct', 'fq'), one)
ftypes = lambda d, f, p: fieldtypes(d, d.rd(p, 'strct', 'fq'))
code_proof('gen_valids', F, s_valids, ['gen_func_valid', 'gen_valids_field'], requires=ftypes)
code_proof('gen_valid', F, s_valid, requires=ftypes)

HA = {}
def h_ha(cut):
    """climbing the ancestors passes none which is in the map"""
    out = []
    if not HA or cut.iter: return out
    for vk, (v0, nv) in cut.vars.items():
        if vk[0] != 'l' or not z3.is_expr(v0) or not z3.is_int(v0): continue
        def f(t, ix, key=vk[1]):
            j = z3.Int('j')
            return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < HA['len']), HA['G'](HA['p0'], HA['role'](j)) == HA['G'](t.env[key], HA['role'](j))), patterns=[HA['el'](j)])
        out.append(('climb%s' % (vk[1],), f))
    return out
@proof('lang-c-source:has_ancestor', F, ['has_ancestor'], hints=(h_ha,))
def has_ancestor(mk):
    """whether a role of the map is a proper ancestor"""
    e = mk()
    fd, v, st = e.start('has_ancestor', F)
    rm, r = v
    s0 = St()
    par = e.harr(s0, ('role', 'parent'))
    G = e.rtc(par)
    h = e.off(s0, 'rolemap', 'rq', rm)
    j = z3.Int('j'); el = e.qat(s0, h, j, 'rrefq')
    ex = z3.Exists([j], z3.And(j >= 0, j < e.qlen(s0, h, 'rrefq'), G(z3.Select(par, r), z3.Select(e.harr(s0, ('rref', 'role')), el))), patterns=[el])
    EL = lambda j: e.qat(s0, h, j, 'rrefq')
    HA.update(len=e.qlen(s0, h, 'rrefq'), el=EL, role=lambda j: z3.Select(e.harr(s0, ('rref', 'role')), EL(j)), G=G, p0=z3.Select(par, r))
    n = 0
    for val, s in e.runfn(fd, v, st):
        n += 1
        e.oblige(s, e.tobool(val) == ex, 'result iff a role of the map is an ancestor')
    if not n: e.obl.append(dict(fn='has_ancestor', name='vacuity', ok=False, res='failed', t=0, info='no path', line=None))

def s_json(d, f, p):
    h = d.rd(p, 'strct', 'fq'); nm = d.rd(p, 'strct', 'name')
    d.call('gen_func_json_data', f, p, 0); d.lit('{')
    blob = lambda d, x: z3.And(d.rd(x, 'field', 'type') == d.const('FTYPE_BLOB'), z3.Not(d.flag(x, 'field', 'flags', 'FIELD_NOEXPORT')))
    B = lambda i=None: count(d, 'blob', 'fieldq', h, i)
    def b1(d, x, i):
        if d.c(blob(d, x)): d.fmt('char *buf%zu;', 1 + B(i))
    d.each('fieldq', h, b1)
    if d.c(B() != 0): d.lit('size_t sz;')
    def b2(d, x, i):
        if not d.c(blob(d, x)): return
        d.fmt('sz = (p->%s_sz + 2) / 3 * 4 + 1; buf%zu = malloc(sz); if (buf%zu == NULL) { perror(NULL); exit(EXIT_FAILURE); }', field(d, x), 1 + B(i), 1 + B(i))
        if nullf(d, x): d.fmt('if (p->has_%s)', field(d, x))
        d.fmt('b64_ntop(p->%s, p->%s_sz, buf%zu, sz);', field(d, x), field(d, x), 1 + B(i))
    d.each('fieldq', h, b2)
    d.each('fieldq', h, lambda d, x, i: d.call('gen_json_out_field', f, x, B(i), None))
    def b3(d, x, i):
        if d.c(blob(d, x)): d.fmt('free(buf%zu);', 1 + B(i))
    d.each('fieldq', h, b3)
    d.lit('}')
    d.call('gen_func_json_obj', f, p, 0)
    d.fmt('{ kjson_objp_open(r, "%s"); json_%s_data(r, p); kjson_obj_close(r); }', nm, nm)
    if d.c(d.flag(p, 'strct', 'flags', 'STRCT_HAS_QUEUE')):
        d.call('gen_func_json_array', f, p, 0)
        d.fmt('{ struct %s *p; kjson_arrayp_open(r, "%s_q"); TAILQ_FOREACH(p, q, _entries) { kjson_obj_open(r); json_%s_data(r, p); kjson_obj_close(r); } kjson_array_close(r); }', nm, nm, nm)
    if d.c(d.flag(p, 'strct', 'flags', 'STRCT_HAS_ITERATOR')):
        d.call('gen_func_json_iterate', f, p, 0)
        d.fmt('{ struct kjsonreq *r = arg; kjson_obj_open(r); json_%s_data(r, p); kjson_obj_close(r); }', nm)
def c_out(eng, st, a, n):
    """contract of gen_json_out_field: *pos counts the buffers used; *sp is layout"""
    pos = eng.load(a[2], 'size_t', st)
    st.emit(('call', 'gen_json_out_field', (a[0], a[1], pos, z3.IntVal(0))))
    d = D(eng, [], []); d.s0 = st
    eng.store(a[2], 'size_t', pos + z3.If(z3.And(eng.rd(st, ('field', 'type'), a[1], 'enum ftype') == d.const('FTYPE_BLOB'), z3.Not(d.flag(a[1], 'field', 'flags', 'FIELD_NOEXPORT'))), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)), st)
    eng.store(a[3], 'int', fresh('sp', z3.BitVecSort(32)), st)
    return [(z3.BitVecVal(1, 32), st)]
BLOBS = counts('fieldq', blob=lambda d, x: z3.And(d.rd(x, 'field', 'type') == d.const('FTYPE_BLOB'), z3.Not(d.flag(x, 'field', 'flags', 'FIELD_NOEXPORT'))))
code_proof('gen_json_out', F, s_json, ['gen_func_json_data', 'gen_func_json_obj', 'gen_func_json_array', 'gen_func_json_iterate'], con=dict(gen_json_out_field=c_out), hints=(BLOBS,), hist=False)

# ---------------------------------------------------------------- roles (P05)
def s_hier(d, f, r):
    par = d.rd(r, 'role', 'parent')
    if d.c(par == 0): return
    pn = d.rd(par, 'role', 'name')
    if d.c(z3.Or(d.streq(pn, 'all'), d.streq(pn, 'none'))): return
    d.fmt("if (!sqlbox_role_hier_child(hier, ROLE_%s, ROLE_%s)) goto err;", pn, d.rd(r, 'role', 'name'))
code_proof('gen_role_hier', F, s_hier)
def rooted(d, r):
    """the ancestors of a role end in all"""
    x = fresh('role', I)
    par = d.rd(x, 'role', 'parent'); nm = d.streq(d.rd(x, 'role', 'name'), 'all')
    d.s0.pc[:] = [g for g in d.s0.pc if not mentions(g, x)]
    return [z3.ForAll([x], z3.Implies(z3.And(x != 0, z3.Not(nm)), par != 0), patterns=[par])]
def s_rolecases(d, f, r):
    par = d.rd(r, 'role', 'parent')
    d.fmt('case ROLE_%s:', d.rd(r, 'role', 'name'))
    isall = lambda d, p: d.streq(d.rd(p, 'role', 'name'), 'all')
    if d.c(isall(d, par)): d.lit('abort(); /* NOTREACHED */')
    else:
        d.lit('switch (r) {')
        d.chain(par, isall, lambda d, p: d.rd(p, 'role', 'parent'), lambda d, p: d.fmt('case ROLE_%s:', d.rd(p, 'role', 'name')))
        d.lit('ctx->role = r; return; default: abort(); } break;')
    d.each('roleq', d.rd(r, 'role', 'subrq'), lambda d, e, i: d.call('gen_func_rolecases', f, e))
code_proof('gen_func_rolecases', F, s_rolecases, ['gen_func_rolecases'], requires=lambda d, f, r: rooted(d, r) + [d.rd(r, 'role', 'parent') != 0])
def s_trans(d, f, cfg):
    r = d.first('roleq', d.rd(cfg, 'config', 'rq'), lambda e: d.streq(d.rd(e, 'role', 'name'), 'all'))
    d.call('gen_func_db_role', f, 0)
    d.lit('''{ if (!sqlbox_role(ctx->db, r)) exit(EXIT_FAILURE); if (r == ctx->role) return; if (ctx->role == ROLE_none) abort();
      if (r == ROLE_none) { ctx->role = r; return; } switch (ctx->role) { case ROLE_default: ctx->role = r; return;''')
    d.each('roleq', d.rd(r, 'role', 'subrq'), lambda d, e, i: d.call('gen_func_rolecases', f, e))
    d.lit('default: abort(); } }')
    d.call('gen_func_db_role_current', f, 0); d.lit('{ return ctx->role; }')
    d.call('gen_func_db_role_stored', f, 0); d.lit('{ return s->role; }')
code_proof('gen_func_role_transitions', F, s_trans, ['gen_func_rolecases', 'gen_func_db_role', 'gen_func_db_role_current', 'gen_func_db_role_stored'], qfeas=True, hist=True,
    requires=lambda d, f, cfg: [d.exists('roleq', d.rd(cfg, 'config', 'rq'), lambda e: d.streq(d.rd(e, 'role', 'name'), 'all'))])
def s_transact(d, f, cfg):
    d.call('gen_func_db_trans_open', f, 0)
    d.lit('''{ struct sqlbox *db = ctx->db; int c; if (mode < 0) c = sqlbox_trans_exclusive(db, 0, id); else if (mode > 0) c = sqlbox_trans_immediate(db, 0, id);
      else c = sqlbox_trans_deferred(db, 0, id); if (!c) exit(EXIT_FAILURE); }''')
    for x in ('rollback', 'commit'):
        d.call('gen_func_db_trans_' + x, f, 0); d.lit('{ struct sqlbox *db = ctx->db; if (!sqlbox_trans_%s(db, 0, id)) exit(EXIT_FAILURE); }' % x)
code_proof('gen_transactions', F, s_transact, ['gen_func_db_trans_' + x for x in ('open', 'rollback', 'commit')])
def s_close(d, f, cfg): d.call('gen_func_db_close', f, 0); d.lit('{ if (p == NULL) return; sqlbox_free(p->db); free(p); }')
code_proof('gen_close', F, s_close, ['gen_func_db_close'])
def s_open(d, f, cfg):
    rq = d.rd(cfg, 'config', 'rq')
    roles = d.c(d.len('roleq', rq) != 0)
    d.call('gen_func_db_set_logging', f, 0); d.lit('{ if (!sqlbox_msg_set_dat(ort->db, arg, sz)) exit(EXIT_FAILURE); }')
    d.call('gen_func_db_open', f, 0); d.lit('{ return db_open_logging(file, NULL, NULL, NULL); }')
    d.call('gen_func_db_open_logging', f, 0)
    d.lit('''{ size_t i; struct ort *ctx = NULL; struct sqlbox_cfg cfg; struct sqlbox *db = NULL; struct sqlbox_pstmt pstmts[STMT__MAX];
      struct sqlbox_src srcs[1] = { { .fname = (char *)file, .mode = SQLBOX_SRC_RW } };''')
    if roles: d.lit('struct sqlbox_role_hier *hier = NULL;')
    d.lit('''memset(&cfg, 0, sizeof(struct sqlbox_cfg)); cfg.msg.func = log; cfg.msg.func_short = log_short; cfg.msg.dat = log_arg; cfg.srcs.srcs = srcs; cfg.srcs.srcsz = 1;
      cfg.stmts.stmts = pstmts; cfg.stmts.stmtsz = STMT__MAX; for (i = 0; i < STMT__MAX; i++) pstmts[i].stmt = (char *)stmts[i];
      ctx = malloc(sizeof(struct ort)); if (ctx == NULL) goto err;''')
    if roles:
        d.lit('hier = sqlbox_role_hier_alloc('); d.any()
        d.lit('''); if (hier == NULL) goto err; if (!sqlbox_role_hier_sink(hier, ROLE_none)) goto err; if (!sqlbox_role_hier_start(hier, ROLE_default)) goto err;
          if (!sqlbox_role_hier_src(hier, ROLE_default, 0)) goto err;''')
        d.each('roleq', d.rd(cfg, 'config', 'arq'), lambda d, r, i: d.call('gen_role_hier', f, r))
        d.each('strctq', d.rd(cfg, 'config', 'sq'), lambda d, p, i: d.call('gen_roles', f, cfg, p))
        d.lit('if (!sqlbox_role_hier_gen(hier, &cfg.roles, ROLE_default)) goto err;')
    d.lit('if ((db = sqlbox_alloc(&cfg)) == NULL) goto err; ctx->db = db;')
    if roles: d.lit('ctx->role = ROLE_default; sqlbox_role_hier_gen_free(&cfg.roles); sqlbox_role_hier_free(hier); hier = NULL;')
    d.lit('if (sqlbox_open_async(db, 0)) return ctx; err:')
    if roles: d.lit('sqlbox_role_hier_gen_free(&cfg.roles); sqlbox_role_hier_free(hier);')
    d.lit('sqlbox_free(db); free(ctx); return NULL; }')
code_proof('gen_open', F, s_open, ['gen_func_db_set_logging', 'gen_func_db_open', 'gen_func_db_open_logging', 'gen_role_hier', 'gen_roles'], con=dict(count_roles=pure('count_roles', B64)), asserts=False, hist=False)
