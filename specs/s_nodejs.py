"""lang-nodejs.c"""
from common import *
import s_csource as C
from s_csource import types, table, field, isstruct, nullref, tname, ref, nullf, binary, xty, insfield, fv
F = 'lang-nodejs.c'
def np_(name, *a, **k):
    for x, y in dict(hist=False, qfeas=False, mergetr=True, merge_threshold=1).items(): k.setdefault(x, y)
    code_proof(name, F, *a, **k)

JT = dict([('FTYPE_' + x, 'bigint') for x in 'BIT DATE EPOCH INT BITFIELD'.split()] + [('FTYPE_' + x, 'string') for x in 'TEXT PASSWORD EMAIL'.split()], FTYPE_REAL='number', FTYPE_BLOB='Buffer')
OPN = dict(('OPTYPE_' + a, b) for a, b in (x.split(':') for x in 'EQUAL:eq GE:ge GT:gt LE:le LT:lt NEQUAL:neq LIKE:like AND:and OR:or STREQ:streq STRNEQ:strneq ISNULL:isnull NOTNULL:notnull'.split()))
MODN = dict(MODTYPE_CONCAT='cat', MODTYPE_DEC='dec', MODTYPE_INC='inc', MODTYPE_SET='set', MODTYPE_STRSET='strset')
REL = dict(VALIDATE_GE='>=', VALIDATE_LE='<=', VALIDATE_GT='>', VALIDATE_LT='<', VALIDATE_EQ='===')
def ltc(d, x, rec, f, m): return z3.ULT(d.rd(x, rec, f), d.const(m))
def known(d, x): return ltc(d, x, 'field', 'type', 'FTYPE__MAX')

# ---------------------------------------------------------------- parameters of methods
def nullable(d, x):
    """may hold no value: itself, or, for a structure, its reference"""
    return z3.Or(d.flag(x, 'field', 'flags', 'FIELD_NULL'), z3.And(isstruct(d, x), nullref(d, x)))
def s_var(d, f, pos, col, x):
    d.when(z3.UGT(pos, 1), lambda d: d.lit(','))
    d.fmt('v%zu: ', pos)
    if d.c(types(d, d.rd(x, 'field', 'type'), 'ENUM')): d.fmt('ortns.%s', d.rd(d.rd(x, 'field', 'enm'), 'enm', 'name'))
    else: d.str(table(d, d.rd(x, 'field', 'type'), JT))
    if d.c(d.flag(x, 'field', 'flags', 'FIELD_NULL')): d.lit('|null')
def isfield(d, x): return z3.And(known(d, x), z3.Not(isstruct(d, x)))
np_('gen_var', s_var, retok=lambda d, v, r: v >= 0, requires=lambda d, f, pos, col, x: [isfield(d, x)], asserts=False)
def c_var(eng, st, a, n):
    """contract of gen_var: prints the parameter, returns the column"""
    d = D(eng, [], []); d.s0 = st
    eng.oblige(st, isfield(d, a[3]), 'a parameter is no structure')
    st.emit(('call', 'gen_var', (a[0], a[1], None, a[3])))
    r = fresh('col', B32)
    st.pc.append(r >= 0)
    return [(r, st)]
def c_rolemap(eng, st, a, n):
    """contract of gen_rolemap: prints the check of the role; whether anything was printed"""
    st.emit(('call', 'gen_rolemap', tuple(a)))
    r = fresh('rm', B32); st.pc.append(r >= 0)
    return [(r, st)]
NCON = dict(gen_var=c_var, gen_rolemap=c_rolemap)

# ---------------------------------------------------------------- roles (P05)
def s_role(d, f, r, tabs):
    nm = d.rd(r, 'role', 'name'); q = d.rd(r, 'role', 'subrq')
    d.when(z3.Or(z3.Not(d.streq(nm, 'all')), d.len('roleq', q) == 0), lambda d: d.fmt("case '%s':", nm))
    d.each('roleq', q, lambda d, e, i: d.call('gen_role', f, e, None))
np_('gen_role', s_role, ['gen_role'])
def s_rolemap(d, f, cfg, rm):
    if d.c(d.len('roleq', d.rd(cfg, 'config', 'rq')) == 0): return z3.BitVecVal(0, 32)
    d.lit('switch (this.#role) {')
    if d.c(rm != 0):
        q = d.rd(rm, 'rolemap', 'rq')
        d.each('rrefq', q, lambda d, e, i: d.call('gen_role', f, d.rd(e, 'rref', 'role'), None))
        d.lit('break;')
    d.lit('default: process.abort(); }')
    return z3.BitVecVal(1, 32)
np_('gen_rolemap', s_rolemap, ['gen_role'], retok=lambda d, v, r: v == r)
def s_dbrole_role(d, f, r):
    d.fmt("case '%s': switch(newrole) {", d.rd(r, 'role', 'name'))
    d.chain(r, lambda d, p: d.streq(d.rd(p, 'role', 'name'), 'all'), lambda d, p: d.rd(p, 'role', 'parent'), lambda d, p: d.fmt("case '%s':", d.rd(p, 'role', 'name')))
    d.lit('this.#role = newrole; return; default: break; } break;')
    d.each('roleq', d.rd(r, 'role', 'subrq'), lambda d, e, i: d.call('gen_ortctx_dbrole_role', f, e))
np_('gen_ortctx_dbrole_role', s_dbrole_role, ['gen_ortctx_dbrole_role'])
def s_dbrole(d, f, cfg):
    q = d.rd(cfg, 'config', 'rq')
    if d.c(d.len('roleq', q) == 0): return
    d.lit("db_role_current(): string { return this.#role; } db_role(newrole: string): void { if (this.#role === newrole) return; if (this.#role === 'none') process.abort(); if (newrole === 'all') process.abort(); "
      "if (newrole === 'none') { this.#role = newrole; return; } switch (this.#role) { case 'default': this.#role = newrole; return;")
    r = d.first('roleq', q, lambda e: d.streq(d.rd(e, 'role', 'name'), 'all'))
    if r is not None: d.each('roleq', d.rd(r, 'role', 'subrq'), lambda d, e, i: d.call('gen_ortctx_dbrole_role', f, e))
    d.lit("default: break; } process.abort(); }")
np_('gen_ortctx_dbrole', s_dbrole, ['gen_ortctx_dbrole_role'], asserts=False, hist=True, qfeas=True, mergetr=False, merge_threshold=6)

# ---------------------------------------------------------------- exports (P06)
def cast(d, x):
    ty = d.rd(x, 'field', 'type')
    if d.c(types(d, ty, 'ENUM')): d.fmt('ortns.%s', d.rd(d.rd(x, 'field', 'enm'), 'enm', 'name'))
    else: d.str(table(d, ty, JT))
def s_strct(d, f, p, pos):
    nm = d.rd(p, 'strct', 'name'); q = d.rd(p, 'strct', 'fq')
    d.fmt('export interface %sData {', nm)
    def decl(d, x, i):
        d.fmt('%s: ', field(d, x))
        if d.c(isstruct(d, x)): d.fmt('ortns.%sData', tname(d, x))
        else: cast(d, x)
        if d.c(nullable(d, x)): d.lit('|null')
        d.lit(';')
    d.each('fieldq', q, decl)
    d.fmt('} function db_export_%s(role: string, obj: %sData): any { const res: any = {}', nm, nm)
    def exp(d, x, i):
        n = field(d, x); ty = d.rd(x, 'field', 'type')
        if d.c(d.flag(x, 'field', 'flags', 'FIELD_NOEXPORT')): return
        if d.c(types(d, ty, 'PASSWORD')): return
        rm = d.rd(x, 'field', 'rolemap')
        rolled = d.c(rm != 0)
        if rolled:
            d.lit('switch (role) {')
            d.each('rrefq', d.rd(rm, 'rolemap', 'rq'), lambda d, e, i: d.call('gen_role', f, d.rd(e, 'rref', 'role'), None))
            d.lit('break; default:')
        if d.c(isstruct(d, x)):
            d.fmt("res['%s'] = ", n)
            if d.c(nullref(d, x)): d.fmt("(obj['%s'] === null) ? null : ", n)
            d.fmt("db_export_%s(role, obj['%s'])", tname(d, x), n)
        else:
            strd = d.c(types(d, ty, 'BIT', 'DATE', 'EPOCH', 'INT', 'REAL', 'BITFIELD'))
            blob = not strd and d.c(types(d, ty, 'BLOB'))
            d.fmt("res['%s'] = ", n)
            if (strd or blob) and nullf(d, x): d.fmt("(obj['%s'] === null) ? null : ", n)
            d.fmt("obj['%s']", n)
            d.lit('.toString();' if strd else ".toString('base64');" if blob else ';')
        if rolled: d.lit('break; }')
    d.each('fieldq', q, exp)
    d.fmt('return res; } export class %s { readonly #role: string; readonly obj: ortns.%sData; constructor(role: string, obj: ortns.%sData) { this.#role = role; this.obj = obj; } '
      'export(): any { return db_export_%s(this.#role, this.obj); } }', nm, nm, nm, nm)
def fq(d, p): return d.rd(p, 'strct', 'fq')
def knownq(d, q): return [d.forall('fieldq', q, lambda x: known(d, x))]
np_('gen_strct', s_strct, ['gen_role'], requires=lambda d, f, p, pos: knownq(d, fq(d, p)))

# ---------------------------------------------------------------- validators (P07)
def s_xvalid(d, f, x):
    ty = d.rd(x, 'field', 'type'); q = d.rd(x, 'field', 'fvq')
    def limits(pre, k, post):
        def one(d, v, i):
            d.lit('if (' + pre); d.str(table(d, d.rd(v, 'fvalid', 'type'), REL))
            if k == 'integer': d.lit("BigInt('"); d.num('d', fv(d, v, k)); d.lit("')")
            elif k == 'decimal': d.raw('%.17g', fv(d, v, k))
            else: d.num('u', fv(d, v, k))
            d.lit(')) return null;')
        d.each('fvalidq', q, one)
    d.lit("if (typeof v === 'undefined' || v === null) return null;")
    if d.c(types(d, ty, 'BLOB')):
        if d.c(d.len('fvalidq', q) == 0): d.lit('return Buffer.from(v);'); return
        d.lit('const nv: Buffer = Buffer.from(v);'); limits('!(nv.length', 'len', ''); d.lit('return nv;')
    elif d.c(types(d, ty, 'TEXT', 'PASSWORD')):
        d.lit('const nv: string = v.toString();'); limits('!(Buffer.byteLength(nv)', 'len', ''); d.lit('return nv;')
    elif d.c(types(d, ty, 'EMAIL')):
        d.lit('if (!validator.isEmail(v.trim())) return null; const em: string|false = validator.normalizeEmail(v.trim());')
        limits("typeof(em) === 'string' && !(Buffer.byteLength(em)", 'len', ''); d.lit("return typeof(em) === 'string' ? em : null;")
    elif d.c(types(d, ty, 'REAL')):
        d.lit("let nv: number; if (!validator.isDecimal(v.toString().trim(), { locale: 'en-US' })) return null; nv = parseFloat(v); if (isNaN(nv)) return null;")
        limits('!(nv', 'decimal', ''); d.lit('return nv;')
    elif d.c(types(d, ty, 'ENUM')):
        n = d.rd(d.rd(x, 'field', 'enm'), 'enm', 'name')
        d.fmt("if (!(<any>Object).values(ortns.%s).includes(v.toString().trim())) return null; return <ortns.%s>v.toString().trim();", n, n)
    else:
        if d.c(types(d, ty, 'DATE')):
            d.lit("if (!validator.isDate(v.trim(), { format: 'YYYY-MM-DD', strictMode: true })) return null; const nd: Date|null = validator.toDate(v.trim()); if (nd === null) return null; const nv: bigint = BigInt(nd.getTime() / 1000);")
        else:
            d.lit('if (v.toString().trim().length === 0) return null; let nv: bigint; try { nv = BigInt(v); } catch (er) { return null; }')
            if d.c(types(d, ty, 'BITFIELD')): d.lit('if (nv < minInt || nv > maxUint) return null; nv = BigInt.asIntN(64, nv);')
            elif d.c(types(d, ty, 'BIT')): d.lit('if (nv < BigInt(0) || nv > BigInt(64)) return null;')
            else: d.lit('if (nv < minInt || nv > maxInt) return null;')
        limits('!(nv', 'integer', ''); d.lit('return nv;')
def validq(d, x): return [d.forall('fvalidq', d.rd(x, 'field', 'fvq'), lambda v: ltc(d, v, 'fvalid', 'type', 'VALIDATE__MAX'))]
np_('gen_ortns_express_valid', s_xvalid, asserts=False, requires=lambda d, f, x: [isfield(d, x)] + validq(d, x))
def s_xvalids(d, args, f, cfg):
    if not d.c(d.flag(args, 'ort_lang_nodejs', 'flags', 'ORT_LANG_NODEJS_NOMODULE')): d.lit('export ')
    d.lit("namespace ortvalid { const minInt: bigint = BigInt('-9223372036854775808'); const maxInt: bigint = BigInt('9223372036854775807'); const maxUint: bigint = BigInt('18446744073709551615'); export interface ortValidType {")
    sq = d.rd(cfg, 'config', 'sq')
    def decl(d, p, i):
        def one(d, x, j):
            if d.c(isstruct(d, x)): return
            d.fmt("'%s-%s': (v?: any) => ", d.rd(p, 'strct', 'name'), field(d, x)); cast(d, x); d.lit('|null;')
        d.each('fieldq', fq(d, p), one)
    d.each('strctq', sq, decl)
    d.lit('} export const ortValids: ortValidType = {')
    def impl(d, p, i):
        def one(d, x, j):
            if d.c(isstruct(d, x)): return
            d.fmt("'%s-%s': (v) => {", d.rd(p, 'strct', 'name'), field(d, x)); d.call('gen_ortns_express_valid', f, x); d.lit('},')
        d.each('fieldq', fq(d, p), one)
    d.each('strctq', sq, impl)
    d.lit('} }')
def allknown(d, cfg): return [d.forall('strctq', d.rd(cfg, 'config', 'sq'), lambda p: d.forall('fieldq', fq(d, p), lambda x: known(d, x)))]
np_('gen_ortns_express_valids', s_xvalids, ['gen_ortns_express_valid'], requires=lambda d, args, f, cfg: allknown(d, cfg))

# ---------------------------------------------------------------- enumerations and bit-fields
def items(d, R, h, body):
    def one(d, x, i):
        body(d, x)
        d.when(d.len(R, h) != i + 1, lambda d: d.lit(','))
    d.each(R, h, one)
def s_bitf(d, f, p, pos):
    d.fmt('export enum %s {', d.rd(p, 'bitf', 'name'))
    def one(d, b):
        n, v = d.rd(b, 'bitidx', 'name'), d.rd(b, 'bitidx', 'value')
        d.fmt("BITI_%s = '", n); d.num('d', v); d.fmt("', BITF_%s = '", n); d.num('u', z3.BitVecVal(1, 64) << v); d.lit("'")
    items(d, 'bitidxq', d.rd(p, 'bitf', 'bq'), one)
    d.lit('}')
def s_enm(d, f, p, pos):
    d.fmt('export enum %s {', d.rd(p, 'enm', 'name'))
    def one(d, e): d.fmt("%s = '", d.rd(e, 'eitem', 'name')); d.num('d', d.rd(e, 'eitem', 'value')); d.lit("'")
    items(d, 'eitemq', d.rd(p, 'enm', 'eq'), one)
    d.lit('}')
np_('gen_bitf', s_bitf, requires=lambda d, f, p, pos: [d.forall('bitidxq', d.rd(p, 'bitf', 'bq'), lambda b: z3.And(d.rd(b, 'bitidx', 'value') >= 0, d.rd(b, 'bitidx', 'value') < 64))])
np_('gen_enm', s_enm)

# ---------------------------------------------------------------- queries (P21)
ADV = "data.row[data.pos + %zu]"
def colfield(d, x): return z3.Not(isstruct(d, x))
COLS = counts('fieldq', col=colfield, ins=insfield)
def s_fill(d, f, p):
    nm = d.rd(p, 'strct', 'name'); h = fq(d, p)
    d.fmt('private db_%s_fill(data: {row: any[], pos: number}): ortns.%sData { const obj: ortns.%sData = {', nm, nm, nm)
    def one(d, x, i):
        n = field(d, x); ty = d.rd(x, 'field', 'type')
        col = count(d, 'col', 'fieldq', h, i)
        d.fmt("'%s': ", n)
        if d.c(types(d, ty, 'STRUCT')):
            if d.c(nullref(d, x)): d.lit('null,')
            else: d.fmt('<ortns.%sData>{},', tname(d, x))
            return
        d.lit('<'); cast(d, x)
        null = nullf(d, x)
        d.lit('|null>' if null else '>')
        if d.c(types(d, ty, 'ENUM')):
            if null: d.fmt('(' + ADV + ' === null ? null : ' + ADV + '.toString()),', col, col)
            else: d.fmt(ADV + '.toString(),', col)
        else: d.fmt(ADV + ',', col)
    d.each('fieldq', h, one)
    d.fmt('}; data.pos += %zu;', count(d, 'col', 'fieldq', h))
    def nested(d, x, i):
        if d.c(isstruct(d, x)):
            if not d.c(nullref(d, x)): d.fmt('obj.%s = this.db_%s_fill(data);', field(d, x), tname(d, x))
    d.each('fieldq', h, nested)
    d.lit('return obj; }')
np_('gen_fill', s_fill, asserts=False, hints=(COLS,), requires=lambda d, f, p: knownq(d, fq(d, p)))
def s_reffind(d, f, p):
    if not d.c(d.flag(p, 'strct', 'flags', 'STRCT_HAS_NULLREFS')): return
    nm = d.rd(p, 'strct', 'name')
    d.fmt('private db_%s_reffind(db: ortdb, obj: ortns.%sData): void {', nm, nm)
    def one(d, x, i):
        if not d.c(isstruct(d, x)): return
        src, tgt = ref(d, x); n = field(d, x); par = d.rd(tgt, 'field', 'parent')
        if d.c(nullref(d, x)):
            d.fmt("if (obj.%s !== null) { let cols: any; const parms: any[] = []; const stmt: Database.Statement = db.db.prepare(ortstmt.stmtBuilder (ortstmt.ortstmt.STMT_%s_BY_UNIQUE_%s)); stmt.raw(true); parms.push(obj.%s); cols = stmt.get(parms); "
              "if (typeof cols === 'undefined') throw 'referenced row not found'; obj.%s = this.db_%s_fill ({row: <any[]>cols, pos: 0}); }", field(d, src), tname(d, x), field(d, tgt), field(d, src), n, tname(d, x))
        if d.c(d.flag(par, 'strct', 'flags', 'STRCT_HAS_NULLREFS')): d.fmt('if (obj.%s !== null) this.db_%s_reffind(db, obj.%s);', n, tname(d, x), n)
    d.each('fieldq', fq(d, p), one)
    d.lit('}')
np_('gen_reffind', s_reffind)

def push(d, x, v, hashit):
    """the value bound for a parameter of field x"""
    ty = d.rd(x, 'field', 'type')
    if d.c(types(d, ty, 'BIT', 'BITFIELD')):
        if nullf(d, x): d.fmt('parms.push(v%zu === null ? null : BigInt.asIntN(64, v%zu));', v, v)
        else: d.fmt('parms.push(BigInt.asIntN(64, v%zu));', v)
    elif d.c(z3.And(ty == d.const('FTYPE_PASSWORD'), hashit)):
        if nullf(d, x): d.fmt('if (v%zu === null) parms.push(null); else ', v)
        d.fmt('parms.push(bcrypt.hashSync(v%zu, this.#o.args.bcrypt_cost));', v)
    else: d.fmt('parms.push(v%zu);', v)
def s_insert(d, f, p):
    nm = d.rd(p, 'strct', 'name'); h = fq(d, p)
    v = lambda d, i: 1 + count(d, 'ins', 'fieldq', h, i)
    d.fmt('db_%s_insert(', nm)
    def arg(d, x, i):
        if d.c(insfield(d, x)): d.call('gen_var', f, v(d, i), None, x)
    d.each('fieldq', h, arg)
    d.fmt('): bigint { const parms: any[] = []; let info: Database.RunResult; const stmt: Database.Statement = this.#o.db.prepare(ortstmt.stmtBuilder (ortstmt.ortstmt.STMT_%s_INSERT));', nm)
    d.call('gen_rolemap', f, d.rd(p, 'strct', 'cfg'), d.rd(d.rd(p, 'strct', 'ins'), 'insert', 'rolemap'))
    def bind(d, x, i):
        if d.c(insfield(d, x)): push(d, x, v(d, i), z3.BoolVal(True))
    d.each('fieldq', h, bind)
    d.lit("try { info = stmt.run(parms); } catch (er) { if (er.code === 'SQLITE_CONSTRAINT_UNIQUE' || er.code === 'SQLITE_CONSTRAINT_FOREIGNKEY') return BigInt(-1); throw er; } return BigInt(info.lastInsertRowid.toString()); }")
np_('gen_insert', s_insert, con=NCON, hints=(COLS,), requires=lambda d, f, p: knownq(d, fq(d, p)))

def hashed(d, x): return d.rd(x, 'uref', 'mod') != d.const('MODTYPE_STRSET')
UPS = counts('urefq', all=lambda d, x: z3.BoolVal(True), binary=lambda d, x: binary(d, x, 'uref'))
def opname(d, x, rec): return table(d, d.rd(x, rec, 'op'), OPN)
def s_update(d, f, cfg, up, num):
    m, c = d.rd(up, 'update', 'mrq'), d.rd(up, 'update', 'crq')
    nm = d.rd(d.rd(up, 'update', 'parent'), 'strct', 'name'); un = d.rd(up, 'update', 'name')
    C_ = lambda n, h, i=None: count(d, n, 'urefq', h, i)
    fld = lambda d, x: d.rd(x, 'uref', 'field')
    mod = d.c(d.is_(up, 'update', 'type', 'UP_MODIFY'))
    d.fmt('db_%s_' + ('update' if mod else 'delete'), nm)
    if d.c(un != 0): d.fmt('_%s', un)
    else:
        if mod and not d.c(d.flag(up, 'update', 'flags', 'UPDATE_ALL')):
            def mn(d, x, i): d.fmt('_%s_', field(d, fld(d, x))); d.str(table(d, d.rd(x, 'uref', 'mod'), MODN))
            d.each('urefq', m, mn)
        if d.c(d.len('urefq', c) != 0):
            d.lit('_by')
            def cn(d, x, i): d.fmt('_%s_', field(d, fld(d, x))); d.str(opname(d, x, 'uref'))
            d.each('urefq', c, cn)
    d.lit('(')
    d.each('urefq', m, lambda d, x, i: d.call('gen_var', f, 1 + C_('all', m, i), None, fld(d, x)))
    def carg(d, x, i):
        if d.c(binary(d, x, 'uref')): d.call('gen_var', f, 1 + C_('all', m) + C_('binary', c, i), None, fld(d, x))
    d.each('urefq', c, carg)
    d.fmt('): ' + ('boolean' if mod else 'void') + ' { const parms: any[] = []; let info: Database.RunResult; const stmt: Database.Statement = this.#o.db.prepare(ortstmt.stmtBuilder (ortstmt.ortstmt.STMT_%s_' + ('UPDATE' if mod else 'DELETE') + '_%zu));', nm, num)
    d.call('gen_rolemap', f, cfg, d.rd(up, 'update', 'rolemap'))
    d.each('urefq', m, lambda d, x, i: push(d, fld(d, x), 1 + C_('all', m, i), hashed(d, x)))
    def cond(d, x, i):
        if d.c(binary(d, x, 'uref')): push(d, fld(d, x), 1 + C_('all', m) + C_('binary', c, i), z3.BoolVal(False))
    d.each('urefq', c, cond)
    if mod: d.lit("try { info = stmt.run(parms); } catch (er) { if (er.code === 'SQLITE_CONSTRAINT_UNIQUE' || er.code === 'SQLITE_CONSTRAINT_FOREIGNKEY') return false; throw er; } return true; }")
    else: d.lit('stmt.run(parms); }')
def ups(d, f, cfg, up, num):
    ok = lambda x: z3.And(isfield(d, d.rd(x, 'uref', 'field')), ltc(d, x, 'uref', 'op', 'OPTYPE__MAX'), ltc(d, x, 'uref', 'mod', 'MODTYPE__MAX'))
    return [d.forall('urefq', d.rd(up, 'update', q), ok) for q in ('mrq', 'crq')] + [z3.ULT(d.rd(up, 'update', 'type'), d.const('UP__MAX'))]
np_('gen_update', s_update, con=NCON, hints=(UPS,), asserts=False, requires=ups)

def s_checkpass(d, f, pos, name, op, x):
    """true exactly if the password does not compare as it should"""
    d.lit('(')
    if nullf(d, x): d.fmt('v%zu === null || obj.%s === null ||', pos, name)
    if d.c(op == d.const('OPTYPE_EQUAL')): d.lit('!')
    d.fmt('bcrypt.compareSync(v%zu, obj.%s))', pos, name)
np_('gen_checkpass', s_checkpass)
def checked(d, x): return z3.And(binary(d, x), z3.Not(C.boundsent(d, x)))
SENTS = counts('sentq', binary=binary)
def s_qcheckpass(d, f, s, ret):
    h = d.rd(s, 'search', 'sntq')
    def one(d, x, i):
        if not d.c(checked(d, x)): return
        d.lit('if '); d.call('gen_checkpass', f, 1 + count(d, 'binary', 'sentq', h, i), d.rd(x, 'sent', 'fname'), d.rd(x, 'sent', 'op'), d.rd(x, 'sent', 'field'))
        d.when(ret != 0, lambda d: d.lit('return null;'), lambda d: d.lit('continue;'))
    d.each('sentq', h, one)
np_('gen_query_checkpass', s_qcheckpass, ['gen_checkpass'], hints=(SENTS,))
def s_query(d, f, cfg, s, num):
    h = d.rd(s, 'search', 'sntq'); par = d.rd(s, 'search', 'parent'); dst = d.rd(s, 'search', 'dst')
    rs = d.rd(dst, 'dstnct', 'strct') if d.c(dst != 0) else par
    nm, rn = d.rd(par, 'strct', 'name'), d.rd(rs, 'strct', 'name'); sn = d.rd(s, 'search', 'name')
    nb = lambda i=None: 1 + count(d, 'binary', 'sentq', h, i)
    ST = dict(STYPE_COUNT='count', STYPE_SEARCH='get', STYPE_LIST='list', STYPE_ITERATE='iterate')
    t = d.case(d.rd(s, 'search', 'type'), [d.const(k) for k in ST])
    k = [k for k in ST if d.const(k) == t][0]
    d.fmt('db_%s_' + ST[k], nm)
    if d.c(sn != 0): d.fmt('_%s', sn)
    elif d.c(d.len('sentq', h) != 0):
        d.lit('_by')
        def cn(d, x, i): d.fmt('_%s_', d.rd(x, 'sent', 'uname')); d.str(opname(d, x, 'sent'))
        d.each('sentq', h, cn)
    d.lit('(')
    def arg(d, x, i):
        if d.c(binary(d, x)): d.call('gen_var', f, nb(i), None, d.rd(x, 'sent', 'field'))
    d.each('sentq', h, arg)
    if k == 'STYPE_ITERATE':
        d.when(z3.UGT(nb(), 1), lambda d: d.lit(','))
        d.fmt('cb: (res: ortns.%s) => void', rn)
    d.lit('): ')
    if k == 'STYPE_SEARCH': d.fmt('ortns.%s|null', rn)
    elif k == 'STYPE_LIST': d.fmt('ortns.%s[]', rn)
    else: d.lit('void' if k == 'STYPE_ITERATE' else 'bigint')
    d.fmt(' { const parms: any[] = []; const stmt: Database.Statement = this.#o.db.prepare(ortstmt.stmtBuilder (ortstmt.ortstmt.STMT_%s_BY_SEARCH_%zu)); stmt.raw(true);', nm, num)
    d.call('gen_rolemap', f, cfg, d.rd(s, 'search', 'rolemap'))
    def bind(d, x, i):
        if d.c(C.boundsent(d, x)): push(d, d.rd(x, 'sent', 'field'), nb(i), z3.BoolVal(False))
    d.each('sentq', h, bind)
    nulls = lambda d: d.when(d.flag(rs, 'strct', 'flags', 'STRCT_HAS_NULLREFS'), lambda d: d.fmt('this.db_%s_reffind(this.#o, obj);', rn))
    if k == 'STYPE_SEARCH':
        d.fmt("const cols: any = stmt.get(parms); if (typeof cols === 'undefined') return null; const obj: ortns.%sData = this.db_%s_fill ({row: <any[]>cols, pos: 0});", rn, rn)
        nulls(d); d.call('gen_query_checkpass', f, s, 1); d.fmt('return new ortns.%s(this.#role, obj);', rn)
    elif k == 'STYPE_ITERATE':
        d.fmt("for (const cols of stmt.iterate(parms)) { const obj: ortns.%sData = this.db_%s_fill ({row: <any>cols, pos: 0});", rn, rn)
        nulls(d); d.call('gen_query_checkpass', f, s, 0); d.fmt('cb(new ortns.%s(this.#role, obj)); }', rn)
    elif k == 'STYPE_LIST':
        d.fmt("const rows: any[] = stmt.all(parms); const objs: ortns.%s[] = []; let i: number; for (i = 0; i < rows.length; i++) { const obj: ortns.%sData = this.db_%s_fill ({row: <any[]>rows[i], pos: 0});", rn, rn, rn)
        nulls(d); d.call('gen_query_checkpass', f, s, 0); d.fmt('objs.push(new ortns.%s(this.#role, obj)); } return objs;', rn)
    else: d.lit("const cols: any = stmt.get(parms); if (typeof cols === 'undefined') throw 'count returned no result!?'; return BigInt(cols[0]);")
    d.lit('}')
def qreq(d, f, cfg, s, num):
    ok = lambda x: z3.And(isfield(d, d.rd(x, 'sent', 'field')), ltc(d, x, 'sent', 'op', 'OPTYPE__MAX'))
    return [d.forall('sentq', d.rd(s, 'search', 'sntq'), ok), ltc(d, s, 'search', 'type', 'STYPE__MAX')]
np_('gen_query', s_query, ['gen_query_checkpass'], con=NCON, hints=(SENTS,), asserts=False, requires=qreq)

def s_api(d, f, cfg, p):
    d.call('gen_fill', f, p); d.call('gen_reffind', f, p)
    d.when(d.rd(p, 'strct', 'ins') != 0, lambda d: d.call('gen_insert', f, p))
    for q, R, g in (('sq', 'searchq', 'gen_query'), ('dq', 'updateq', 'gen_update'), ('uq', 'updateq', 'gen_update')):
        d.each(R, d.rd(p, 'strct', q), lambda d, x, i, g=g, q=q, R=R: d.call(g, f, cfg, x, count(d, 'all', R, d.rd(p, 'strct', q), i)))
ALL = lambda d, x: z3.BoolVal(True)
np_('gen_api', s_api, ['gen_fill', 'gen_reffind', 'gen_insert', 'gen_query', 'gen_update'], hints=(counts('searchq', all=ALL), counts('updateq', all=ALL)))

LASTIX = lambda R, name: z3.Function('last.%s.%s' % (R, name), I, I, I)
def lasts(R, **preds):
    """a variable holds the last element passed which satisfies a predicate"""
    def h(cut):
        if not cut.iter or cut.iter[0] != 'list' or cut.iter[3] != R: return []
        out = []
        def mkf(key, name, pred):
            def f(t, ix):
                d = D(cut.eng, [], [])
                at = lambda i: d.at(R, cut.iter[2], i)
                def val(ix):
                    if z3.is_int_value(ix) and ix.as_long() == 0: return z3.IntVal(-1)
                    if z3.is_add(ix) and ix.num_args() == 2:
                        a, b = ix.arg(0), ix.arg(1)
                        if z3.is_int_value(a): a, b = b, a
                        return z3.If(pred(d, at(a)), a, val(a))
                    return LASTIX(R, name)(cut.iter[2], ix)
                v = val(ix)
                return z3.And(v >= -1, v < ix, t.env[key] == z3.If(v < 0, z3.IntVal(0), at(v)))
            return f
        for vk, (v0, nv) in cut.vars.items():
            if vk[0] != 'l' or not z3.is_expr(v0) or not z3.is_int(v0): continue
            for name, pred in preds.items(): out.append(('last%s%s' % (vk[1], name), mkf(vk[1], name, pred)))
        return out
    return h
FIRSTC = firsts('fieldq', colfield)
def s_alias(d, f, p):
    h = fq(d, p)
    d.fmt('function ort_schema_%s(v: string): string { return ', d.rd(p, 'strct', 'name'))
    def one(d, x, i):
        if not d.c(colfield(d, x)): return
        d.fmt("v + '.%s'", field(d, x))
        d.when(x != d.at('fieldq', h, LASTIX('fieldq', 'col')(h, d.len('fieldq', h))), lambda d: d.lit("+ ',' +"), lambda d: d.lit(';'))
    d.each('fieldq', h, one)
    d.lit('}')
np_('gen_alias_builder', s_alias, hints=(lasts('fieldq', col=colfield), FIRSTC), asserts=False)

# ---------------------------------------------------------------- the whole module
def opt(d, args, n): return d.flag(args, 'ort_lang_nodejs', 'flags', 'ORT_LANG_NODEJS_' + n)
def export(d, args): d.when(z3.Not(opt(d, args, 'NOMODULE')), lambda d: d.lit('export '))
def s_ns(d, args, f, cfg):
    export(d, args); d.lit('namespace ortns {')
    for q, R, g in (('eq', 'enmq', 'gen_enm'), ('bq', 'bitfq', 'gen_bitf'), ('sq', 'strctq', 'gen_strct')):
        d.each(R, d.rd(cfg, 'config', q), lambda d, x, i, g=g: d.call(g, f, x, None))
    d.lit('}')
np_('gen_ortns', s_ns, ['gen_enm', 'gen_bitf', 'gen_strct'])
def s_args(d, args, f): export(d, args); d.lit('interface ortargs { bcrypt_cost: number; }')
np_('gen_ortargs', s_args)
def s_db(d, args, f):
    export(d, args)
    d.lit("class ortdb { readonly args: ortargs; readonly db: Database.Database; readonly version: string = '"); d.any(); d.lit("'; readonly vstamp: number = "); d.any()
    d.lit("; constructor(dbname: string, args?: ortargs) { this.db = new Database(dbname); this.db.defaultSafeIntegers(true); if (typeof args !== 'undefined') { this.args = Object.assign({}, args); } else { this.args = { bcrypt_cost: 10 }; } } connect(): ortctx { return new ortctx(this); } }")
np_('gen_ortdb', s_db)
def s_ctx(d, args, f, cfg):
    sq = d.rd(cfg, 'config', 'sq'); js = d.const('LANG_JS')
    d.lit('namespace ortstmt { export enum ortstmt {')
    d.each('strctq', sq, lambda d, p, i: d.call('gen_sql_enums', f, None, p, js))
    d.lit('} export function stmtBuilder(idx: ortstmt): string { return ortstmts[idx]; } const ortstmts: readonly string[] = [')
    d.each('strctq', sq, lambda d, p, i: d.call('gen_sql_stmts', f, None, p, js))
    d.lit('];')
    d.each('strctq', sq, lambda d, p, i: d.call('gen_alias_builder', f, p))
    d.lit('}')
    export(d, args)
    d.lit("class ortctx { #role: string = 'default'; readonly #o: ortdb; constructor(o: ortdb) { this.#o = o; } ")
    for n, q in (('open_immediate', 'BEGIN TRANSACTION IMMEDIATE'), ('open_deferred', 'BEGIN TRANSACTION DEFERRED'), ('open_exclusive', 'BEGIN TRANSACTION EXCLUSIVE'), ('rollback', 'ROLLBACK TRANSACTION'), ('commit', 'COMMIT TRANSACTION')):
        d.lit("db_trans_%s(id: number): void { this.#o.db.exec('%s'); }" % (n, q))
    d.call('gen_ortctx_dbrole', f, cfg)
    d.each('strctq', sq, lambda d, p, i: d.call('gen_api', f, cfg, p))
    d.lit('}')
np_('gen_ortctx', s_ctx, ['gen_sql_enums', 'gen_sql_stmts', 'gen_alias_builder', 'gen_ortctx_dbrole', 'gen_api'])
def s_module(d, args, cfg, f):
    db, valid, nomod = opt(d, args, 'DB'), opt(d, args, 'VALID'), opt(d, args, 'NOMODULE')
    d.when(z3.Not(nomod), lambda d: (
        d.when(z3.And(db, d.flag(cfg, 'config', 'flags', 'CONFIG_HAS_PASS')), lambda d: d.lit("import bcrypt from 'bcrypt';")),
        d.when(db, lambda d: d.lit("import Database from 'better-sqlite3';")),
        d.when(valid, lambda d: d.lit("import validator from 'validator';"))))
    d.when(opt(d, args, 'CORE'), lambda d: d.call('gen_ortns', args, f, cfg))
    d.when(valid, lambda d: d.call('gen_ortns_express_valids', args, f, cfg))
    if d.c(db):
        d.call('gen_ortctx', args, f, cfg); d.call('gen_ortargs', args, f); d.call('gen_ortdb', args, f)
        export(d, args)
        d.lit('function ort(dbname: string, args?: '); d.alt(lambda d: d.lit('optargs'), lambda d: d.lit('ortargs')); d.lit('): ortdb { return new ortdb(dbname, args); }')
np_('ort_lang_nodejs', s_module, ['gen_ortns', 'gen_ortns_express_valids', 'gen_ortctx', 'gen_ortargs', 'gen_ortdb'], requires=lambda d, args, cfg, f: [args != 0])
