"""diff.c: the difference of two configurations (P03)"""
from common import *
F = 'diff.c'
U = 'diff::anon0'
low = lambda d, a: d.eng.lower(d.eng.content(a))
same = lambda d, a, b: low(d, a) == low(d, b)

# ----------------------------------------------------- equivalence predicates
def subset(d, R, h1, h2, eq):
    """every element of list h1 has an equal one in h2"""
    return z3.Not(d.exists(R, h1, lambda e: z3.Not(d.exists(R, h2, lambda f: eq(e, f)))))
def p_rolemap(d, a, b):
    qa, qb = d.rd(a, 'rolemap', 'rq'), d.rd(b, 'rolemap', 'rq')
    nm = lambda e: d.rd(d.rd(e, 'rref', 'role'), 'role', 'name')
    return z3.Or(z3.And(a == 0, b == 0), z3.And(a != 0, b != 0, d.len('rrefq', qa) == d.len('rrefq', qb), subset(d, 'rrefq', qa, qb, lambda e, f: same(d, nm(e), nm(f)))))
def p_comment(d, a, b):
    return z3.Or(z3.And(a == 0, b == 0), z3.And(a != 0, b != 0, d.eng.content(a) == d.eng.content(b)))

def pred_proof(fn, pred, pre=None, **flags):
    """a boolean function decides exactly the predicate"""
    @proof('diff:' + fn, F, [fn], flags.pop('contracts', {}), **dict(dict(qfeas=False), **flags))
    def run(mk):
        e = mk()
        fd, v, st = e.start(fn, F)
        if pre:
            d = D(e, [], [])
            g = pre(d, *v)
            st.pc += d.s0.pc + g
        n = 0
        for val, s in e.runfn(fd, v, st):
            if not e.feasible(s): continue
            n += 1
            d = D(e, [], [])
            g = pred(d, *v)
            s.pc += d.s0.pc
            e.oblige(s, (val != 0) == g, 'result iff equivalent')
        if not n: e.obl.append(dict(fn=fn, name='vacuity', ok=False, res='failed', t=0, info='no path', line=None))
pred_proof('ort_check_rolemap_roles', p_rolemap)
pred_proof('ort_check_comment', p_comment)

def lang(d, c, l):
    """name of language number l of a configuration"""
    e = d.eng
    a = e.padd(d.rd(c, 'config', 'langs'), l, 'unsigned long', 'char *')
    return e.rdmem(d.s0, a, 'char *')
def p_labels(d, cf, f, ci, t):
    eq = lambda x, y: z3.And(same(d, lang(d, cf, d.rd(x, 'label', 'lang')), lang(d, ci, d.rd(y, 'label', 'lang'))),
                             d.eng.content(d.rd(x, 'label', 'label')) == d.eng.content(d.rd(y, 'label', 'label')))
    return z3.And(d.len('labelq', f) == d.len('labelq', t), subset(d, 'labelq', f, t, eq))
def nn_lists(d, cf, f, ci, t): return [f != 0, t != 0]
pred_proof('ort_check_labels', p_labels, pre=nn_lists, uidx=True)

def p_urefs(d, a, b):
    return z3.And(same(d, d.rd(d.rd(a, 'uref', 'field'), 'field', 'name'), d.rd(d.rd(b, 'uref', 'field'), 'field', 'name')),
                  d.rd(a, 'uref', 'op') == d.rd(b, 'uref', 'op'), d.rd(a, 'uref', 'mod') == d.rd(b, 'uref', 'mod'))
pred_proof('ort_check_urefs', p_urefs)

INTS = ('FTYPE_BIT', 'FTYPE_BITFIELD', 'FTYPE_DATE', 'FTYPE_EPOCH', 'FTYPE_INT')
LENS = ('FTYPE_BLOB', 'FTYPE_EMAIL', 'FTYPE_TEXT', 'FTYPE_PASSWORD')
def ft(d, f): return d.rd(f, 'field', 'type')
def isty(d, f, ns): return oneof(ft(d, f), *[d.const(n) for n in ns])
def p_fvalids(d, a, b):
    qa, qb = d.rd(a, 'field', 'fvq'), d.rd(b, 'field', 'fvq')
    def val(e, k): return d.rd(d.rd(d.rd(e, 'fvalid', 'd'), 'fvalid::anon0', 'value'), 'fvalid::anon0::anon0', k)
    def eq(x, y):
        return z3.And(d.rd(x, 'fvalid', 'type') == d.rd(y, 'fvalid', 'type'),
            z3.Implies(isty(d, a, INTS), val(x, 'integer') == val(y, 'integer')),
            z3.Implies(isty(d, a, ('FTYPE_REAL',)), z3.fpEQ(val(x, 'decimal'), val(y, 'decimal'))),
            z3.Implies(isty(d, a, LENS), val(x, 'len') == val(y, 'len')))
    n = d.len('fvalidq', qa)
    return z3.And(n == d.len('fvalidq', qb), z3.Or(ft(d, a) == ft(d, b), n == 0), subset(d, 'fvalidq', qa, qb, eq))
def r_fvalids(d, a, b):
    """limits exist only on fields of these types"""
    return [a != 0, b != 0] + [z3.Or(isty(d, x, INTS + LENS + ('FTYPE_REAL',)), d.len('fvalidq', d.rd(x, 'field', 'fvq')) == 0) for x in (a, b)]
pred_proof('ort_check_fvalids', p_fvalids, pre=r_fvalids)

def seqsame(d, R, h1, h2, eq):
    """same length and equal element by element"""
    n = d.len(R, h1)
    j = fresh('ix', I)
    a, b = d.at(R, h1, j), d.at(R, h2, j)
    k = len(d.s0.pc)
    g = d.closefacts(k, j, eq(a, b))
    return z3.And(n == d.len(R, h2), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), g), patterns=[a]))
def p_sentq(d, a, b): return seqsame(d, 'sentq', a, b, lambda x, y: z3.And(d.rd(x, 'sent', 'op') == d.rd(y, 'sent', 'op'), same(d, d.rd(x, 'sent', 'fname'), d.rd(y, 'sent', 'fname'))))
def p_ordq(d, a, b): return seqsame(d, 'ordq', a, b, lambda x, y: z3.And(d.rd(x, 'ord', 'op') == d.rd(y, 'ord', 'op'), same(d, d.rd(x, 'ord', 'fname'), d.rd(y, 'ord', 'fname'))))
def p_insorder(d, a, b): return seqsame(d, 'fieldq', d.rd(a, 'strct', 'fq'), d.rd(b, 'strct', 'fq'), lambda x, y: same(d, d.rd(x, 'field', 'name'), d.rd(y, 'field', 'name')))
def p_uniq1(d, u, o):
    U_ = d.rd(u, 'unique', 'nq')
    nm = lambda e: d.rd(d.rd(e, 'nref', 'field'), 'field', 'name')
    O = d.rd(o, 'unique', 'nq')
    return z3.And(d.len('nrefq', U_) == d.len('nrefq', O), subset(d, 'nrefq', U_, O, lambda x, y: same(d, nm(x), nm(y))))
def p_uniq(d, q, u, os): return d.exists('uniqueq', d.rd(os, 'strct', 'nq'), lambda o: p_uniq1(d, u, o))
pred_proof('ort_check_sentq', p_sentq)
pred_proof('ort_check_ordq', p_ordq)
pred_proof('ort_check_insert_order', p_insorder)
pred_proof('ort_has_unique', p_uniq, pre=lambda d, q, u, os: [d.len('nrefq', d.rd(u, 'unique', 'nq')) > 0], hints=(none_before('uniqueq', lambda d, o: p_uniq1(d, z3.Const('u', I), o)),))

# ------------------------------------------------- the lists of differences
def opq(fn, args):
    """what a callee with its own contract decides, as a function of its arguments"""
    g = z3.Function('result.' + fn, *([x.sort() for x in args] + [z3.BoolSort()]))
    return g(*args)
def term(eng, st, x):
    if isinstance(x, (LocalAddr, FieldAddr)): return eng.aggaddr(x, st)
    if isinstance(x, MemAddr): return x.addr
    return x
def checks(fn):
    """call-site contract of a check: its result is its (separately proved) predicate"""
    def f(eng, st, a, n):
        a = [term(eng, st, x) for x in a]
        return [(z3.If(opq(fn, a), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)), st)]
    return f
def diffs(fn, of=slice(None)):
    """call-site contract of a function adding differences: it adds its own, and
    its result says whether it is a change (never below zero if memory lasts)"""
    def f(eng, st, a, n):
        a = [term(eng, st, x) for x in a]
        st.emit(('call', fn, tuple(a)))
        return [(z3.If(opq(fn, a[of]), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)), st)]
    return f
def sayd(fn):
    def f(eng, st, a, n):
        st.emit(('call', fn, tuple(term(eng, st, x) for x in a)))
        return [(z3.BitVecVal(1, 32), st)]
    return f
def put(d, q, ty, **kv):
    """the list gets one more element of this type and objects"""
    if isinstance(ty, tuple): ty = z3.If(ty[0], z3.BitVecVal(d.const(ty[1]), 32), z3.BitVecVal(d.const(ty[2]), 32))
    else: ty = d.const(ty)
    fs = [lambda rd, e: rd('diff', 'type', e) == ty]
    for k, v in kv.items():
        if isinstance(v, tuple):
            def pf(rd, e, k=k, v=v):
                p = rd(U, k + '_pair', e)
                return z3.And(rd('diff_' + k, 'from', p) == v[0], rd('diff_' + k, 'into', p) == v[1])
            fs.append(pf)
        else: fs.append(lambda rd, e, k=k, v=v: rd(U, k, e) == v)
    d.push('diffq', q, *fs)
def nm(d, R, x): return low(d, d.rd(x, R, 'name'))

def chk(d, fn, *a): return opq('ort_check_' + fn, list(a))
CC = dict((k, checks(k)) for k in ('ort_check_rolemap_roles', 'ort_check_comment', 'ort_check_labels', 'ort_check_fvalids', 'ort_check_sentq', 'ort_check_ordq', 'ort_check_insert_order', 'ort_check_urefs'))
def diff_proof(name, spec, con=None, retok=None, requires=None, **flags):
    c = dict(CC); c.update(con or {})
    @proof('diff:' + name, F, [name], c, **dict(dict(pushed={'diffq'}, mergetr=True, merge_threshold=1), **flags))
    def run(mk):
        check_emit(mk(), name, F, spec, requires=requires, retok=retok or (lambda d, v, r: v != 0))

def modpush(d, q, R, pair, items, sofar=False):
    """a changed thing: one entry per changed aspect, then one for the thing"""
    for cond, ty in items: d.when(cond, lambda d: put(d, q, ty, **{R: pair}))
    return z3.Or(sofar, *[c for c, t in items])
def cmt(d, rec, a, b): return z3.Not(chk(d, 'comment', d.rd(a, rec, 'doc'), d.rd(b, rec, 'doc')))
def lab(d, rec, f, cf, a, ci, b): return z3.Not(chk(d, 'labels', cf, d.rd(a, rec, f), ci, d.rd(b, rec, f)))
def item(rec, N):
    def f(d, q, cf, a, ci, b):
        if d.c(a == 0): put(d, q, 'DIFF_ADD_' + N, **{rec: b}); return z3.BoolVal(True)
        ch = modpush(d, q, rec, (a, b), [
            (d.rd(a, rec, 'value') != d.rd(b, rec, 'value'), 'DIFF_MOD_%s_VALUE' % N),
            (lab(d, rec, 'labels', cf, a, ci, b), 'DIFF_MOD_%s_LABELS' % N),
            (cmt(d, rec, a, b), 'DIFF_MOD_%s_COMMENT' % N)])
        put(d, q, (ch, 'DIFF_MOD_' + N, 'DIFF_SAME_' + N), **{rec: (a, b)})
        return ch
    return f
def r_item(rec): return lambda d, q, cf, a, ci, b: [b != 0, z3.Or(a == 0, nm(d, rec, a) == nm(d, rec, b))]
for rec, N, fn in (('bitidx', 'BITIDX', 'ort_diff_bitidx'), ('eitem', 'EITEM', 'ort_diff_eitem')):
    diff_proof(fn, item(rec, N), requires=r_item(rec), retok=lambda d, v, r: z3.If(r, v > 0, v == 0))

def s_field(d, q, a, b):
    g = lambda f: (d.rd(a, 'field', f), d.rd(b, 'field', f))
    ne = lambda f: g(f)[0] != g(f)[1]
    bf, en, rf = g('bitf'), g('enm'), g('ref')
    fl = lambda x: d.flag(x, 'field', 'flags', 'FIELD_HASDEF')
    da, db = d.rd(a, 'field', 'def'), d.rd(b, 'field', 'def')
    val = lambda k: (d.rd(da, 'field::anon0', k), d.rd(db, 'field::anon0', k))
    ty = lambda *ns: isty(d, a, ns)
    e1, e2 = val('eitem')
    par = lambda e: d.rd(d.rd(e, 'eitem', 'parent'), 'enm', 'name')
    dd = z3.And(fl(a), fl(b), ft(d, a) == ft(d, b), z3.Or(
        z3.And(ty('FTYPE_BIT', 'FTYPE_BITFIELD', 'FTYPE_DATE', 'FTYPE_EPOCH', 'FTYPE_INT'), val('integer')[0] != val('integer')[1]),
        z3.And(ty('FTYPE_REAL'), z3.Not(z3.fpEQ(*val('decimal')))),
        z3.And(ty('FTYPE_EMAIL', 'FTYPE_TEXT'), d.eng.content(val('string')[0]) != d.eng.content(val('string')[1])),
        z3.And(ty('FTYPE_ENUM'), z3.Or(low(d, par(e1)) != low(d, par(e2)), nm(d, 'eitem', e1) != nm(d, 'eitem', e2)))))
    end = lambda r, k: d.rd(r, 'ref', k)
    def epsame(k):
        x, y = end(rf[0], k), end(rf[1], k)
        return z3.And(nm(d, 'field', x) == nm(d, 'field', y), nm(d, 'strct', d.rd(x, 'field', 'parent')) == nm(d, 'strct', d.rd(y, 'field', 'parent')))
    ch = modpush(d, q, 'field', (a, b), [
        (z3.Not(chk(d, 'rolemap_roles', *g('rolemap'))), 'DIFF_MOD_FIELD_ROLEMAP'),
        (ne('type'), 'DIFF_MOD_FIELD_TYPE'),
        (z3.Or(ne('actdel'), ne('actup')), 'DIFF_MOD_FIELD_ACTIONS'),
        (ne('flags'), 'DIFF_MOD_FIELD_FLAGS'),
        (z3.And(bf[0] != 0, bf[1] != 0, nm(d, 'bitf', bf[0]) != nm(d, 'bitf', bf[1])), 'DIFF_MOD_FIELD_BITF'),
        (z3.And(en[0] != 0, en[1] != 0, nm(d, 'enm', en[0]) != nm(d, 'enm', en[1])), 'DIFF_MOD_FIELD_ENM'),
        (dd, 'DIFF_MOD_FIELD_DEF'),
        (z3.Or((rf[0] != 0) != (rf[1] != 0), z3.And(rf[0] != 0, z3.Not(z3.And(epsame('source'), epsame('target'))))), 'DIFF_MOD_FIELD_REFERENCE'),
        (z3.Not(chk(d, 'fvalids', a, b)), 'DIFF_MOD_FIELD_VALIDS'),
        (cmt(d, 'field', a, b), 'DIFF_MOD_FIELD_COMMENT')])
    put(d, q, (ch, 'DIFF_MOD_FIELD', 'DIFF_SAME_FIELD'), field=(a, b))
    return ch
def r_field(d, q, a, b):
    """names agree; a default exists only on types that have one"""
    return [a != 0, b != 0, nm(d, 'field', a) == nm(d, 'field', b)] + [z3.Implies(d.flag(x, 'field', 'flags', 'FIELD_HASDEF'),
        isty(d, x, ('FTYPE_BIT', 'FTYPE_BITFIELD', 'FTYPE_DATE', 'FTYPE_EPOCH', 'FTYPE_INT', 'FTYPE_REAL', 'FTYPE_EMAIL', 'FTYPE_TEXT', 'FTYPE_ENUM'))) for x in (a, b)]
diff_proof('ort_diff_field', s_field, requires=r_field, retok=lambda d, v, r: z3.If(r, v == 0, v > 0))

def byname(d, R, rec, q, x, extra=None):
    """the element of list q named like x, or None (forks)"""
    return d.first(R, q, lambda e: z3.And(nm(d, rec, e) == nm(d, rec, x), extra(e)) if extra is not None else nm(d, rec, e) == nm(d, rec, x))
def firstmatch(d, R, q, pred, then):
    """exists: some element satisfies pred, is the first to, and then(e)"""
    k, j = fresh('ix', I), fresh('ix', I)
    e, f = d.at(R, q, k), d.at(R, q, j)
    n = len(d.s0.pc)
    pe, pf, th = pred(e), pred(f), then(e)
    d.s0.pc[n:] = [x for x in d.s0.pc[n:] if not mentions(x, k) and not mentions(x, j)]
    return z3.Exists([k], z3.And(k >= 0, k < d.len(R, q), pe, th, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Not(pf)), patterns=[f])), patterns=[e])
def group(N, rec, lf, IR, irec, ifn, IN, labels):
    """a bit-field or enumeration with its items"""
    def f(d, q, cf, a, ci, b):
        qa, qb = d.rd(a, rec, lf), d.rd(b, rec, lf)
        same_ = lambda x: lambda e: nm(d, irec, e) == nm(d, irec, x)
        def new(d, x, i):
            y = byname(d, IR, irec, qa, x)
            d.call(ifn, q, cf, y if y is not None else z3.IntVal(0), ci, x)
        d.each(IR, qb, new)
        def old(d, x, i):
            if not d.c(d.exists(IR, qb, same_(x))): put(d, q, 'DIFF_DEL_' + IN, **{irec: x})
        d.each(IR, qa, old)
        gone = d.exists(IR, qa, lambda x: z3.Not(d.exists(IR, qb, same_(x))))
        r = lambda y, x: opq(ifn, [cf, y, ci, x])
        chg = d.exists(IR, qb, lambda x: z3.Or(z3.And(z3.Not(d.exists(IR, qa, same_(x))), r(z3.IntVal(0), x)), firstmatch(d, IR, qa, same_(x), lambda y: r(y, x))))
        ch = modpush(d, q, rec, (a, b), [(cmt(d, rec, a, b), 'DIFF_MOD_%s_COMMENT' % N), (z3.Or(*[lab(d, rec, l, cf, a, ci, b) for l in labels]), 'DIFF_MOD_%s_LABELS' % N)], z3.Or(gone, chg))
        put(d, q, (ch, 'DIFF_MOD_' + N, 'DIFF_SAME_' + N), **{rec: (a, b)})
        return True
    return f
diff_proof('ort_diff_enm', group('ENM', 'enm', 'eq', 'eitemq', 'eitem', 'ort_diff_eitem', 'EITEM', ['labels_null']), {'ort_diff_eitem': diffs('ort_diff_eitem', slice(1, None))}, mergetr=False, merge_threshold=6)
diff_proof('ort_diff_bitf', group('BITF', 'bitf', 'bq', 'bitidxq', 'bitidx', 'ort_diff_bitidx', 'BITIDX', ['labels_unset', 'labels_null']), {'ort_diff_bitidx': diffs('ort_diff_bitidx', slice(1, None))}, mergetr=False, merge_threshold=6)

NOM = dict(mergetr=False, merge_threshold=6)
def sim(v): return lambda d, v, r: (v > 0) == r
def similar(d, v, r): return z3.And((v > 0) == r, v >= 0)
def pure(fn, of):
    """a comparison: differences are added only if a list is given"""
    def f(eng, st, a, n):
        a = [term(eng, st, x) for x in a]
        if not (z3.is_int_value(a[0]) and a[0].as_long() == 0): st.emit(('call', fn, tuple(a)))
        return [(z3.If(opq(fn, a[of]), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)), st)]
    return f

def s_urefq(d, q, a, b, fq, iq):
    same_ = seqsame(d, 'urefq', fq, iq, lambda x, y: p_urefs(d, x, y))
    d.when(z3.And(z3.Not(same_), q != 0), lambda d: put(d, q, 'DIFF_MOD_UPDATE_PARAMS', update=(a, b)))
    return same_
E_ = dict(ort_check_urefs=None)
@proof('diff:ort_diff_urefq', F, ['ort_diff_urefq', 'ort_check_urefs'], {}, pushed={'diffq'})
def _urefq(mk): check_emit(mk(), 'ort_diff_urefq', F, s_urefq, retok=similar)

def opt(d, q, R, pair, items):
    for c, ty in items: d.when(z3.And(c, q != 0), lambda d: put(d, q, ty, **{R: pair}))
    return z3.Not(z3.Or(*[c for c, t in items]))
def s_update(d, q, a, b):
    g = lambda f: (d.rd(a, 'update', f), d.rd(b, 'update', f))
    ok_ = []
    for l in ('mrq', 'crq'):
        x, y = g(l)
        d.call('ort_diff_urefq', q, a, b, x, y); ok_.append(opq('ort_diff_urefq', [x, y]))
    ok_.append(opt(d, q, 'update', (a, b), [
        (cmt(d, 'update', a, b), 'DIFF_MOD_UPDATE_COMMENT'),
        (z3.Not(chk(d, 'rolemap_roles', *g('rolemap'))), 'DIFF_MOD_UPDATE_ROLEMAP'),
        (g('flags')[0] != g('flags')[1], 'DIFF_MOD_UPDATE_FLAGS')]))
    return z3.And(*ok_)
diff_proof('ort_diff_update', s_update, {'ort_diff_urefq': diffs('ort_diff_urefq', slice(3, 5))}, retok=similar)

def queries(rec, R, N, fn, typed=False):
    """named ones are matched by name (and kind), the others by equality"""
    def f(d, q, qa, qb):
        named = lambda e: d.rd(e, rec, 'name') != 0
        kind = lambda x, e: (d.rd(e, rec, 'type') == d.rd(x, rec, 'type')) if typed else z3.BoolVal(True)
        r = lambda x, y: opq(fn, [x, y])
        mn = lambda x: lambda e: z3.And(named(e), kind(x, e), nm(d, rec, e) == nm(d, rec, x))
        # unnamed: x of the old, e of the new list, and the other way around
        mu = lambda x: lambda e: z3.And(z3.Not(named(e)), kind(x, e), r(x, e))
        um = lambda x: lambda e: z3.And(z3.Not(named(e)), kind(x, e), r(e, x))
        def one(d, x, i):
            if not d.c(named(x)): return
            y = d.first(R, qb, mn(x))
            if y is None: put(d, q, 'DIFF_DEL_' + N, **{rec: x}); return
            d.call(fn, q, x, y)
            put(d, q, (r(x, y), 'DIFF_SAME_' + N, 'DIFF_MOD_' + N), **{rec: (x, y)})
        def two(d, x, i):
            if d.c(named(x)) and not d.c(d.exists(R, qa, mn(x))): put(d, q, 'DIFF_ADD_' + N, **{rec: x})
        def three(d, x, i):
            if d.c(named(x)): return
            y = d.first(R, qb, mu(x))
            if y is None: put(d, q, 'DIFF_DEL_' + N, **{rec: x})
            else: put(d, q, 'DIFF_SAME_' + N, **{rec: (x, y)})
        def four(d, x, i):
            if not d.c(named(x)) and not d.c(d.exists(R, qa, um(x))): put(d, q, 'DIFF_ADD_' + N, **{rec: x})
        for q_, b in ((qa, one), (qb, two), (qa, three), (qb, four)): d.each(R, q_, b)
        NE = lambda e: z3.Not(e)
        return z3.Not(z3.Or(
            d.exists(R, qa, lambda x: z3.And(named(x), z3.Or(NE(d.exists(R, qb, mn(x))), firstmatch(d, R, qb, mn(x), lambda y: NE(r(x, y)))))),
            d.exists(R, qb, lambda x: z3.And(named(x), NE(d.exists(R, qa, mn(x))))),
            d.exists(R, qa, lambda x: z3.And(NE(named(x)), NE(d.exists(R, qb, mu(x))))),
            d.exists(R, qb, lambda x: z3.And(NE(named(x)), NE(d.exists(R, qa, um(x)))))))
    return f
diff_proof('ort_diff_strct_updateq', queries('update', 'updateq', 'UPDATE', 'ort_diff_update'), {'ort_diff_update': pure('ort_diff_update', slice(1, 3))}, retok=similar, **NOM)

def s_search(d, q, a, b):
    g = lambda f: (d.rd(a, 'search', f), d.rd(b, 'search', f))
    def optn(f, rec, *more):
        x, y = g(f)
        return z3.Or((x != 0) != (y != 0), z3.And(x != 0, z3.Or(low(d, d.rd(x, rec, 'fname')) != low(d, d.rd(y, rec, 'fname')), *[d.rd(x, rec, m) != d.rd(y, rec, m) for m in more])))
    return opt(d, q, 'search', (a, b), [
        (z3.Not(chk(d, 'sentq', *g('sntq'))), 'DIFF_MOD_SEARCH_PARAMS'),
        (z3.Not(chk(d, 'ordq', *g('ordq'))), 'DIFF_MOD_SEARCH_ORDER'),
        (optn('aggr', 'aggr', 'op'), 'DIFF_MOD_SEARCH_AGGR'),
        (optn('group', 'group'), 'DIFF_MOD_SEARCH_GROUP'),
        (optn('dst', 'dstnct'), 'DIFF_MOD_SEARCH_DISTINCT'),
        (cmt(d, 'search', a, b), 'DIFF_MOD_SEARCH_COMMENT'),
        (g('limit')[0] != g('limit')[1], 'DIFF_MOD_SEARCH_LIMIT'),
        (g('offset')[0] != g('offset')[1], 'DIFF_MOD_SEARCH_OFFSET'),
        (z3.Not(chk(d, 'rolemap_roles', *g('rolemap'))), 'DIFF_MOD_SEARCH_ROLEMAP')])
diff_proof('ort_diff_search', s_search, requires=lambda d, q, a, b: [d.rd(a, 'search', 'type') == d.rd(b, 'search', 'type')], retok=similar)
sq = queries('search', 'searchq', 'SEARCH', 'ort_diff_search', True)
diff_proof('ort_diff_searchq', lambda d, q, a, b: sq(d, q, d.rd(a, 'strct', 'sq'), d.rd(b, 'strct', 'sq')), {'ort_diff_search': pure('ort_diff_search', slice(1, 3))}, retok=similar, **NOM)

def s_insert(d, q, a, b):
    x, y = d.rd(a, 'strct', 'ins'), d.rd(b, 'strct', 'ins')
    if d.c(z3.And(x == 0, y == 0)): return z3.BoolVal(True)
    if d.c(x == 0): put(d, q, 'DIFF_ADD_INSERT', strct=b); return z3.BoolVal(False)
    if d.c(y == 0): put(d, q, 'DIFF_DEL_INSERT', strct=a); return z3.BoolVal(False)
    ch = modpush(d, q, 'strct', (a, b), [
        (z3.Not(chk(d, 'rolemap_roles', d.rd(x, 'insert', 'rolemap'), d.rd(y, 'insert', 'rolemap'))), 'DIFF_MOD_INSERT_ROLEMAP'),
        (z3.Not(chk(d, 'insert_order', a, b)), 'DIFF_MOD_INSERT_PARAMS')])
    put(d, q, (ch, 'DIFF_MOD_INSERT', 'DIFF_SAME_INSERT'), strct=(a, b))
    return z3.Not(ch)
diff_proof('ort_diff_strct_insert', s_insert, retok=similar)

def s_fields(d, q, a, b):
    qa, qb = d.rd(a, 'strct', 'fq'), d.rd(b, 'strct', 'fq')
    R = 'fieldq'
    m = lambda x: lambda e: nm(d, 'field', e) == nm(d, 'field', x)
    r = lambda x, y: opq('ort_diff_field', [x, y])
    def one(d, x, i):
        y = d.first(R, qa, m(x))
        if y is None: put(d, q, 'DIFF_ADD_FIELD', field=x)
        else: d.call('ort_diff_field', q, y, x)
    def two(d, x, i):
        if not d.c(d.exists(R, qb, m(x))): put(d, q, 'DIFF_DEL_FIELD', field=x)
    d.each(R, qb, one); d.each(R, qa, two)
    return z3.Not(z3.Or(d.exists(R, qb, lambda x: z3.Or(z3.Not(d.exists(R, qa, m(x))), firstmatch(d, R, qa, m(x), lambda y: z3.Not(r(y, x))))),
                        d.exists(R, qa, lambda x: z3.Not(d.exists(R, qb, m(x))))))
diff_proof('ort_diff_fields', s_fields, {'ort_diff_field': diffs('ort_diff_field', slice(1, 3))}, retok=similar, **NOM)

def s_strct(d, q, a, b):
    g = lambda f: (d.rd(a, 'strct', f), d.rd(b, 'strct', f))
    sames = []
    d.call('ort_diff_searchq', q, a, b); sames.append(opq('ort_diff_searchq', [a, b]))
    for l in ('uq', 'dq'):
        x, y = g(l); d.call('ort_diff_strct_updateq', q, x, y); sames.append(opq('ort_diff_strct_updateq', [x, y]))
    for fn in ('ort_diff_strct_insert', 'ort_diff_fields'): d.call(fn, q, a, b); sames.append(opq(fn, [a, b]))
    has = lambda u, o: opq('ort_has_unique', [u, o])
    na, nb = g('nq')
    d.each('uniqueq', nb, lambda d, u, i: None if d.c(has(u, a)) else put(d, q, 'DIFF_ADD_UNIQUE', unique=u))
    d.each('uniqueq', na, lambda d, u, i: None if d.c(has(u, b)) else put(d, q, 'DIFF_DEL_UNIQUE', unique=u))
    un = z3.Or(d.exists('uniqueq', nb, lambda u: z3.Not(has(u, a))), d.exists('uniqueq', na, lambda u: z3.Not(has(u, b))))
    ch = modpush(d, q, 'strct', (a, b), [(cmt(d, 'strct', a, b), 'DIFF_MOD_STRCT_COMMENT')], z3.Or(un, z3.Not(z3.And(*sames))))
    put(d, q, (ch, 'DIFF_MOD_STRCT', 'DIFF_SAME_STRCT'), strct=(a, b))
def hasu(eng, st, a, n):
    return [(z3.If(opq('ort_has_unique', list(a[1:])), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)), st)]
T_ = slice(1, 3)
diff_proof('ort_diff_strct', s_strct, dict([(k, diffs(k, T_)) for k in ('ort_diff_searchq', 'ort_diff_strct_updateq', 'ort_diff_strct_insert', 'ort_diff_fields')], ort_has_unique=hasu))

def alls(N, rec, R, lf, fn, cfg):
    def f(d, q, a, b):
        qa, qb = d.rd(a, 'config', lf), d.rd(b, 'config', lf)
        m = lambda x: lambda e: nm(d, rec, e) == nm(d, rec, x)
        def one(d, x, i):
            y = d.first(R, qa, m(x))
            if y is None: put(d, q, 'DIFF_ADD_' + N, **{rec: x})
            elif cfg: d.call(fn, q, a, y, b, x)
            else: d.call(fn, q, y, x)
        def two(d, x, i):
            if not d.c(d.exists(R, qb, m(x))): put(d, q, 'DIFF_DEL_' + N, **{rec: x})
        d.each(R, qb, one); d.each(R, qa, two)
    return f
for N, rec, lf, cfg in (('ENM', 'enm', 'eq', 1), ('BITF', 'bitf', 'bq', 1), ('STRCT', 'strct', 'sq', 0)):
    diff_proof('ort_diff_%ss' % rec, alls(N, rec, rec + 'q', lf, 'ort_diff_' + rec, cfg), {'ort_diff_' + rec: sayd('ort_diff_' + rec)}, **NOM)

def s_role(d, q, a, b):
    pa, pb = d.rd(a, 'role', 'parent'), d.rd(b, 'role', 'parent')
    sa, sb = d.rd(a, 'role', 'subrq'), d.rd(b, 'role', 'subrq')
    kids = z3.Or(d.len('roleq', sa) != d.len('roleq', sb), z3.Not(subset(d, 'roleq', sa, sb, lambda x, y: nm(d, 'role', x) == nm(d, 'role', y))))
    return z3.Not(modpush(d, q, 'role', (a, b), [
        (z3.And(pa != 0, pb != 0, nm(d, 'role', pa) != nm(d, 'role', pb)), 'DIFF_MOD_ROLE_PARENT'),
        (cmt(d, 'role', a, b), 'DIFF_MOD_ROLE_COMMENT'),
        (kids, 'DIFF_MOD_ROLE_CHILDREN')]))
diff_proof('ort_diff_role', s_role, retok=similar, **NOM)

def s_roleq(d, q, a, b):
    qa, qb = d.rd(a, 'config', 'arq'), d.rd(b, 'config', 'arq'); R = 'roleq'
    m = lambda x: lambda e: nm(d, 'role', e) == nm(d, 'role', x)
    top = lambda x: d.rd(x, 'role', 'parent') == 0
    r = lambda x, y: opq('ort_diff_role', [x, y])
    def one(d, x, i):
        y = d.first(R, qb, m(x))
        if y is None: put(d, q, 'DIFF_DEL_ROLE', role=x); return
        if d.c(top(x)): return
        d.call('ort_diff_role', q, x, y)
        put(d, q, (r(x, y), 'DIFF_SAME_ROLE', 'DIFF_MOD_ROLE'), role=(x, y))
    def two(d, x, i):
        if not d.c(d.exists(R, qa, m(x))): put(d, q, 'DIFF_ADD_ROLE', role=x)
    d.each(R, qa, one); d.each(R, qb, two)
    return z3.Not(z3.Or(d.exists(R, qa, lambda x: z3.Or(z3.Not(d.exists(R, qb, m(x))), z3.And(z3.Not(top(x)), firstmatch(d, R, qb, m(x), lambda y: z3.Not(r(x, y)))))),
                        d.exists(R, qb, lambda x: z3.Not(d.exists(R, qa, m(x))))))
diff_proof('ort_diff_roleq', s_roleq, {'ort_diff_role': diffs('ort_diff_role', T_)}, retok=similar, **NOM)

def s_roles(d, q, a, b):
    R = 'roleq'
    qa, qb = d.rd(a, 'config', 'arq'), d.rd(b, 'config', 'arq')
    na, nb = d.len(R, qa), d.len(R, qb)
    fa, fb = d.at(R, qa, z3.IntVal(0)), d.at(R, qb, z3.IntVal(0))
    if d.c(na == 0):
        if d.c(nb > 0): put(d, q, 'DIFF_ADD_ROLES', role=fb)
    elif d.c(nb == 0): put(d, q, 'DIFF_DEL_ROLES', role=fa)
    else:
        d.call('ort_diff_roleq', q, a, b)
        put(d, q, (opq('ort_diff_roleq', [a, b]), 'DIFF_SAME_ROLES', 'DIFF_MOD_ROLES'), role=(fa, fb))
diff_proof('ort_diff_roles', s_roles, {'ort_diff_roleq': diffs('ort_diff_roleq', T_)})

def s_all(d, a, b):
    for k in ('enms', 'bitfs', 'strcts', 'roles'): d.call('ort_diff_' + k, None, a, b)
diff_proof('ort_diff', s_all, dict((k, sayd(k)) for k in ('ort_diff_enms', 'ort_diff_bitfs', 'ort_diff_strcts', 'ort_diff_roles')))
