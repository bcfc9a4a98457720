"""the parser: numbers of enumeration and bit field items (P15)"""
from common import *
PB, PE = 'parser_bitfield.c', 'parser_enum.c'
B32 = z3.BitVecSort(32)
def pget(eng, st, p): return eng.rd(st, ('parse', 'lasttype'), p)
def tk(eng, nm): return D(eng, [], []).const(nm)
def stop(eng, st, p):
    t = pget(eng, st, p)
    return z3.Or(t == tk(eng, 'TOK_ERR'), t == tk(eng, 'TOK_EOF'))
def integer(eng, st, p): return eng.rd(st, ('parse::anon0', 'integer'), eng.off(st, 'parse', 'last', p))
NK, NT, NV, NE = 'tok.n', 'tok.type', 'tok.value', 'tok.refused'      # tokens read (at most two counted), type and value of the first, whether it was refused
def ghosts(st):
    st.gh[NK] = z3.BitVecVal(0, 64); st.gh[NT] = z3.BitVecVal(0, 32); st.gh[NV] = z3.BitVecVal(0, 64); st.gh[NE] = z3.BitVecVal(0, 32)
def newtok(eng, st, p, ty):
    eng.wr(st, ('parse', 'lasttype'), p, ty)
    o = eng.off(st, 'parse', 'last', p)
    eng.wr(st, ('parse::anon0', 'string'), o, fresh('tstr', I))
    eng.wr(st, ('parse::anon0', 'integer'), o, fresh('tint', B64))
READ, CAP, EOFF, ERRF, LAST = 'read', 'cap', 'eof', 'err', 'last'      # characters read; size of the buffer; indicators of the stream; last character of the buffer
def more(eng, st, p, s0, k):
    """at least k characters more have been read, unless parsing stops"""
    if READ not in st.gh: return
    r = fresh('read', I)
    st.pc += [r >= st.gh[READ], z3.Or(stop(eng, st, p), r >= st.gh[READ] + k)]
    st.gh[READ] = r
def parse_next(eng, st, a, n):
    """contract of the lexer (proved, parser:parse_next): after the end or an error nothing more is read, else some token is"""
    p = a[0]
    old = pget(eng, st, p)
    s0 = stop(eng, st, p)
    iv = integer(eng, st, p)
    so = eng.rd(st, ('parse::anon0', 'string'), eng.off(st, 'parse', 'last', p))
    t = fresh('tok', B32); x = fresh('tint', B64); sx = fresh('tstr', I)
    st.pc += [z3.ULE(t, tk(eng, 'TOK_SEMICOLON')), t != tk(eng, 'TOK_NONE'), z3.Implies(t == tk(eng, 'TOK_IDENT'), z3.And(sx != 0, eng.rdmem(st, sx, 'char') != 0))]
    o = eng.off(st, 'parse', 'last', p)
    t = z3.If(s0, old, t)
    eng.wr(st, ('parse', 'lasttype'), p, t)
    eng.wr(st, ('parse::anon0', 'integer'), o, z3.If(s0, iv, x))
    eng.wr(st, ('parse::anon0', 'string'), o, z3.If(s0, so, sx))
    more(eng, st, p, s0, 1)
    if NK in st.gh:
        k = st.gh[NK]
        st.gh[NT] = z3.If(k == 0, t, st.gh[NT]); st.gh[NV] = z3.If(k == 0, z3.If(s0, iv, x), st.gh[NV])
        st.gh[NK] = z3.If(k == 0, z3.BitVecVal(1, 64), z3.BitVecVal(2, 64))
    return [(t, st)]
def parse_errx(eng, st, a, n):
    """assumed contract: parsing stops"""
    eng.wr(st, ('parse', 'lasttype'), a[0], tk(eng, 'TOK_ERR'))
    if NK in st.gh: st.gh[NE] = z3.If(st.gh[NK] == 1, z3.BitVecVal(1, 32), st.gh[NE])
    return [(tk(eng, 'TOK_ERR'), st)]
def reads(eng, st, a, n):
    """contract of parse_comment and parse_label: any tokens are read; zero iff parsing stops; only the text or labels are set"""
    p = a[0]
    s0 = stop(eng, st, p)
    t = fresh('tok', B32); r = fresh('rc', B32)
    st.pc += [z3.ULE(t, tk(eng, 'TOK_SEMICOLON')), t != tk(eng, 'TOK_NONE')]
    o = eng.off(st, 'parse', 'last', p)
    eng.wr(st, ('parse', 'lasttype'), p, z3.If(s0, pget(eng, st, p), t))
    eng.wr(st, ('parse::anon0', 'integer'), o, fresh('tint', B64)); eng.wr(st, ('parse::anon0', 'string'), o, fresh('tstr', I))
    st.pc.append((r == 0) == stop(eng, st, p))
    more(eng, st, p, s0, 1)
    return [(r, st)]
def sub(eng, st, a, n):
    """contract of a parsing function without a result: any tokens are read"""
    p = a[0]
    s0 = stop(eng, st, p)
    t = fresh('tok', B32)
    st.pc += [z3.ULE(t, tk(eng, 'TOK_SEMICOLON')), t != tk(eng, 'TOK_NONE')]
    o = eng.off(st, 'parse', 'last', p)
    eng.wr(st, ('parse', 'lasttype'), p, z3.If(s0, pget(eng, st, p), t))
    eng.wr(st, ('parse::anon0', 'integer'), o, fresh('tint', B64)); eng.wr(st, ('parse::anon0', 'string'), o, fresh('tstr', I))
    more(eng, st, p, s0, 0)
    return [(None, st)]
def checks(eng, st, a, n):
    """assumed contract of parse_check_badidents and parse_check_dupetoplevel: zero only if parsing stops"""
    r = fresh('rc', B32)
    old = pget(eng, st, a[0])
    eng.wr(st, ('parse', 'lasttype'), a[0], z3.If(r == 0, tk(eng, 'TOK_ERR'), old))
    return [(r, st)]
CON = dict(parse_next=parse_next, parse_errx=parse_errx, parse_err=parse_errx, parse_comment=reads, parse_label=reads,
           parse_check_badidents=checks, parse_check_dupetoplevel=checks, parse_point=quiet, parse_warnx=quiet)

def named(st, a):
    """a constant equal to the term, usable in patterns"""
    if z3.is_const(a): return a
    c = fresh('name', a.sort()); st.pc.append(c == a); return c
def others(eng, st, R, h, i, key, pred, x):
    """no other element of the list has pred(e)"""
    j = fresh('ix', I)
    e = z3.Select(named(st, eng.rd(st, ('at', R), h)), j)
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < eng.rd(st, ('len', R), h), e != i), z3.Not(pred(e))), patterns=[e])
def val(eng, st, rec, x): return eng.rd(st, (rec, 'value'), x)
def isauto(eng, st, x):
    return (eng.rd(st, ('eitem', 'flags'), x) & tk(eng, 'EITEM_AUTO')) != 0
def frame(eng, s0, s, rec, fld, x):
    """only x's field changes"""
    y = fresh('y', I)
    b0, b1 = named(s, eng.harr(s0, (rec, fld))), named(s, eng.harr(s, (rec, fld)))
    return z3.ForAll([y], z3.Implies(y != x, z3.Select(b1, y) == z3.Select(b0, y)), patterns=[z3.Select(b1, y)])
def run(e, fn, file, pre, post):
    fd, v, st = e.start(fn, file)
    pre(st, *v)
    s0 = st.copy()
    n = 0
    for val_, s in e.runfn(fd, v, st):
        if not e.feasible(s): continue
        n += 1
        post(s0, s, *v)
    if not n: e.obl.append(dict(fn=fn, name='vacuity', ok=False, res='failed', t=0, info='no path', line=None))

# what no element passed so far has
def passed(R, x, pred):
    def h(cut):
        if not cut.iter or cut.iter[0] != 'list' or cut.iter[3] != R: return []
        def f(t, ix):
            j = fresh('ix', I)
            y = z3.Select(cut.eng.rd(t, ('at', R), cut.iter[2]), j)
            b = z3.Implies(y != x, z3.Not(pred(cut.eng, t, y)))
            return upto(j, ix, b, y)
        return [('passed', f)]
    return h
def refused(cut):
    """what is refused after a number is not the number"""
    if NE not in cut.st0.gh: return []
    e0 = cut.st0.gh[NE]
    return [('refused', lambda t, ix: z3.Implies(t.gh[NT] == tk(cut.eng, 'TOK_INTEGER'), t.gh[NE] == e0))]
@proof('parser_bitfield:parse_bitidx_item', PB, ['parse_bitidx_item'], CON, qfeas=False, merge_threshold=1)
def bitidx_item(mk):
    e = mk()
    bi = z3.Const('bi', I)
    same = lambda eng, t, y: val(eng, t, 'bitidx', y) == val(eng, t, 'bitidx', bi)
    e.hints = (passed('bitidxq', bi, same), refused)
    def pre(st, p, bi):
        ghosts(st)
        st.pc += [p != 0, bi != 0, eng_parent(e, st, bi) != 0]
    def eng_parent(e, st, bi): return e.rd(st, ('bitidx', 'parent'), bi)
    def post(s0, s, p, bi):
        go = z3.Not(stop(e, s, p))
        v = val(e, s, 'bitidx', bi)
        h = e.off(s, 'bitf', 'bq', eng_parent(e, s0, bi))
        e.oblige(s, z3.Implies(go, z3.And(s.gh[NT] == tk(e, 'TOK_INTEGER'), v == s.gh[NV])), 'the index is the number given')
        e.oblige(s, z3.Implies(go, z3.And(v >= 0, v < 64)), 'the index is one of the 64 bits')
        e.oblige(s, z3.Implies(go, others(e, s, 'bitidxq', h, bi, 'value', lambda y: val(e, s, 'bitidx', y) == v, v)), 'no other item has the index')
        fine = z3.And(s.gh[NT] == tk(e, 'TOK_INTEGER'), s.gh[NV] >= 0, s.gh[NV] < 64, others(e, s, 'bitidxq', h, bi, 'value', lambda y: val(e, s0, 'bitidx', y) == s.gh[NV], v))
        e.oblige(s, z3.Implies(fine, s.gh[NE] == 0), 'an index in range which no other item has is accepted')
        e.oblige(s, frame(e, s0, s, 'bitidx', 'value', bi), 'other items keep their index')
        e.oblige(s, z3.And(e.rd(s, ('at', 'bitidxq'), h) == e.rd(s0, ('at', 'bitidxq'), h), e.rd(s, ('len', 'bitidxq'), h) == e.rd(s0, ('len', 'bitidxq'), h)), 'the items stay those they are')
    run(e, 'parse_bitidx_item', PB, pre, post)
@proof('parser_enum:parse_enum_item', PE, ['parse_enum_item'], CON, qfeas=False, merge_threshold=1)
def enum_item(mk):
    e = mk()
    ei = z3.Const('ei', I)
    clash = lambda eng, t, y: z3.And(z3.Not(isauto(eng, t, y)), val(eng, t, 'eitem', y) == val(eng, t, 'eitem', ei))
    e.hints = (passed('eitemq', ei, clash), refused)
    def parent(st, x): return e.rd(st, ('eitem', 'parent'), x)
    def pre(st, p, ei):
        ghosts(st)
        st.pc += [p != 0, ei != 0, parent(st, ei) != 0, z3.Not(isauto(e, st, ei))]
    def post(s0, s, p, ei):
        go = z3.Not(stop(e, s, p))
        v = val(e, s, 'eitem', ei)
        h = e.off(s, 'enm', 'eq', parent(s0, ei))
        num = s.gh[NT] == tk(e, 'TOK_INTEGER')
        MAX, MIN = z3.BitVecVal((1 << 63) - 1, 64), z3.BitVecVal(1 << 63, 64)
        e.oblige(s, z3.Implies(go, isauto(e, s, ei) == z3.Not(num)), 'an item is numbered automatically iff no number is given')
        e.oblige(s, z3.Implies(z3.And(go, num), v == s.gh[NV]), 'the number is that given')
        e.oblige(s, z3.Implies(z3.And(go, num), z3.And(v != MAX, v != MIN)), 'the number is less than the greatest')
        cl = lambda st, v: lambda y: z3.And(z3.Not(isauto(e, st, y)), val(e, st, 'eitem', y) == v)
        e.oblige(s, z3.Implies(z3.And(go, num), others(e, s, 'eitemq', h, ei, 'value', cl(s, v), v)), 'no other item has the number')
        fine = z3.And(num, s.gh[NV] != MAX, s.gh[NV] != MIN, others(e, s, 'eitemq', h, ei, 'value', cl(s0, s.gh[NV]), v))
        e.oblige(s, z3.Implies(fine, s.gh[NE] == 0), 'a number which no other item has is accepted')
        e.oblige(s, frame(e, s0, s, 'eitem', 'value', ei), 'other items keep their number')
        e.oblige(s, frame(e, s0, s, 'eitem', 'flags', ei), 'other items stay automatic or not')
        e.oblige(s, z3.And(e.rd(s, ('at', 'eitemq'), h) == e.rd(s0, ('at', 'eitemq'), h), e.rd(s, ('len', 'eitemq'), h) == e.rd(s0, ('len', 'eitemq'), h)), 'the items stay those they are')
    run(e, 'parse_enum_item', PE, pre, post)

# ---------------------------------------------------------------- lists of items
def clean(t, seen=None):
    """usable as a pattern"""
    if seen is None: seen = set()
    if t.get_id() in seen: return True
    seen.add(t.get_id())
    if z3.is_bool(t) or z3.is_quantifier(t) or z3.is_app_of(t, z3.Z3_OP_ITE) or z3.is_app_of(t, z3.Z3_OP_STORE): return False
    return all(clean(c, seen) for c in t.children())
def every(vs, body, *pats):
    return z3.ForAll(vs, body, patterns=[pats[0] if len(pats) == 1 else z3.MultiPattern(*pats)]) if all(clean(p) for p in pats) else z3.ForAll(vs, body)
def each(eng, st, R, h, pred):
    """pred(element, index) for every element"""
    a, l = eng.rd(st, ('at', R), h), eng.rd(st, ('len', R), h)
    j = fresh('ix', I); x = z3.Select(a, j)
    return every([j], z3.Implies(z3.And(j >= 0, j < l), pred(x, j)), x)
def pairs(eng, st, R, h, pred):
    """pred(x, y) for all elements x before y"""
    a, l = eng.rd(st, ('at', R), h), eng.rd(st, ('len', R), h)
    i, j = fresh('ix', I), fresh('ix', I); x, y = z3.Select(a, i), z3.Select(a, j)
    return every([i, j], z3.Implies(z3.And(i >= 0, i < j, j < l), pred(x, y)), x, y)
def known(eng, st, R, h):
    """the elements are objects allocated before now, no two the same"""
    return z3.And(each(eng, st, R, h, lambda x, j: z3.And(x > 0, x <= st.gh['brk'])), pairs(eng, st, R, h, lambda x, y: x != y))
def unless_stopped(p, *fs):
    """invariants of a parsing loop"""
    def h(cut):
        if cut.iter: return []
        return [('inv.%d' % i, (lambda f: lambda t, ix: z3.Or(stop(cut.eng, t, p), f(cut.eng, t)))(f)) for i, f in enumerate(fs)]
    return h
def iname(e, t, rec, x): return e.lower(e.content(e.rd(t, (rec, 'name'), x)))
def notnamed(R, rec):
    """no element passed has the name just read"""
    def h(cut):
        if not cut.iter or cut.iter[0] != 'list' or cut.iter[3] != R: return []
        def f(t, ix):
            e = cut.eng
            j = fresh('ix', I); y = z3.Select(e.rd(t, ('at', R), cut.iter[2]), j)
            nm = e.lower(e.content(e.rd(t, ('parse::anon0', 'string'), e.off(t, 'parse', 'last', z3.Const('p', I)))))
            return upto(j, ix, iname(e, t, rec, y) != nm, y)
        return [('notnamed', f)]
    return h
def inlist(eng, st, R, h, x):
    a, l = eng.rd(st, ('at', R), h), eng.rd(st, ('len', R), h)
    j = fresh('ix', I)
    return z3.Exists([j], z3.And(j >= 0, j < l, z3.Select(a, j) == x))

# ---------------------------------------------------------------- the items of a bit field
def c_bitidx_item(eng, st, a, n):
    """contract of parse_bitidx_item"""
    p, bi = a
    b = eng.rd(st, ('bitidx', 'parent'), bi)
    eng.oblige(st, z3.And(bi != 0, b != 0), 'the item has a parent', n.line)
    h = eng.off(st, 'bitf', 'bq', b)
    eng.oblige(st, inlist(eng, st, 'bitidxq', h, bi), 'the item is one of its parent', n.line)
    sub(eng, st, a, n)
    v = fresh('value', B64)
    eng.wr(st, ('bitidx', 'value'), bi, v)
    st.pc.append(z3.Or(stop(eng, st, p), z3.And(v >= 0, v < 64, each(eng, st, 'bitidxq', h, lambda y, j: z3.Implies(y != bi, val(eng, st, 'bitidx', y) != v)))))
    return [(None, st)]
def bits_ok(h):
    return [lambda e, t: known(e, t, 'bitidxq', h), lambda e, t: each(e, t, 'bitidxq', h, lambda x, j: z3.And(val(e, t, 'bitidx', x) >= 0, val(e, t, 'bitidx', x) < 64)),
            lambda e, t: pairs(e, t, 'bitidxq', h, lambda x, y: val(e, t, 'bitidx', x) != val(e, t, 'bitidx', y)),
            lambda e, t: pairs(e, t, 'bitidxq', h, lambda x, y: iname(e, t, 'bitidx', x) != iname(e, t, 'bitidx', y))]
@proof('parser_bitfield:parse_bitidx', PB, ['parse_bitidx', 'parse_bitidx_label'], dict(CON, parse_bitidx_item=c_bitidx_item), qfeas=False, merge_threshold=1)
def bitidx(mk):
    e = mk()
    P, Bf = z3.Const('p', I), z3.Const('b', I)
    def pre(st, p, b):
        st.pc += [p != 0, b != 0, e.rd(st, ('len', 'bitidxq'), e.off(st, 'bitf', 'bq', b)) == 0]
        e.hints = (unless_stopped(P, *bits_ok(e.off(st, 'bitf', 'bq', b))), notnamed('bitidxq', 'bitidx'))
    def post(s0, s, p, b):
        h = e.off(s, 'bitf', 'bq', b)
        go = z3.Not(stop(e, s, p))
        fs = bits_ok(h)
        e.oblige(s, z3.Implies(go, fs[1](e, s)), 'every index is one of the 64 bits')
        e.oblige(s, z3.Implies(go, fs[2](e, s)), 'no two items have the same index')
        e.oblige(s, z3.Implies(go, fs[3](e, s)), 'no two items have the same name')
        e.oblige(s, z3.Implies(go, e.rd(s, ('len', 'bitidxq'), h) > 0), 'a bit field has items')
    run(e, 'parse_bitidx', PB, pre, post)

# ---------------------------------------------------------------- the items of an enumeration
GIVEN = 'given'        # the number given for an item, if one is
MAXV, MINV = z3.BitVecVal((1 << 63) - 1, 64), z3.BitVecVal(1 << 63, 64)
AUTOS = z3.Function('autos', I, I, B64)      # how many of the first i items of the list are automatic
def c_enum_item(eng, st, a, n):
    """contract of parse_enum_item"""
    p, ei = a
    b = eng.rd(st, ('eitem', 'parent'), ei)
    eng.oblige(st, z3.And(ei != 0, b != 0), 'the item has a parent', n.line)
    h = eng.off(st, 'enm', 'eq', b)
    eng.oblige(st, inlist(eng, st, 'eitemq', h, ei), 'the item is one of its parent', n.line)
    eng.oblige(st, z3.Not(isauto(eng, st, ei)), 'the item is not automatic yet', n.line)
    sub(eng, st, a, n)
    v = fresh('value', B64); f = fresh('flags', B32)
    f0 = eng.rd(st, ('eitem', 'flags'), ei)
    st.pc.append(z3.Or(f == f0, f == f0 | tk(eng, 'EITEM_AUTO')))
    eng.wr(st, ('eitem', 'value'), ei, v); eng.wr(st, ('eitem', 'flags'), ei, f)
    st.pc.append(z3.Or(stop(eng, st, p), isauto(eng, st, ei),
        z3.And(v != MAXV, v != MINV, each(eng, st, 'eitemq', h, lambda y, j: z3.Implies(z3.And(y != ei, z3.Not(isauto(eng, st, y))), val(eng, st, 'eitem', y) != v)))))
    st.gh[GIVEN] = z3.Store(st.gh[GIVEN], ei, v)
    return [(None, st)]
def V(e, t, x): return val(e, t, 'eitem', x)
def explicit(e, t, x): return z3.Not(isauto(e, t, x))
def enum_known(h, b0=None):
    """items are objects known, and newer than b0"""
    return lambda e, t: z3.And(known(e, t, 'eitemq', h), *([] if b0 is None else [each(e, t, 'eitemq', h, lambda x, j: x > b0)]))
def older(b0, heap0, *fields):
    """objects older than b0 keep the fields"""
    def f(e, t):
        y = fresh('y', I)
        r = []
        for k in fields:
            a = e.harr(t, k)
            x = z3.Select(a, y)
            if not a.eq(heap0[k]): r.append(every([y], z3.Implies(y <= b0, x == z3.Select(heap0[k], y)), x))
        return z3.And(*r)
    return f
ITEM = [('eitem', 'value'), ('eitem', 'flags')]
def enum_names(h): return lambda e, t: pairs(e, t, 'eitemq', h, lambda x, y: iname(e, t, 'eitem', x) != iname(e, t, 'eitem', y))
def enum_given(h): return lambda e, t: each(e, t, 'eitemq', h, lambda x, j: z3.Implies(explicit(e, t, x), z3.And(V(e, t, x) == z3.Select(t.gh[GIVEN], x), V(e, t, x) != MAXV, V(e, t, x) != MINV)))
def enum_diff(h): return lambda e, t: pairs(e, t, 'eitemq', h, lambda x, y: z3.Implies(z3.And(explicit(e, t, x), explicit(e, t, y)), V(e, t, x) != V(e, t, y)))
def keeps(f):
    """an invariant of every loop over a list"""
    def h(cut): return [('keeps', lambda t, ix: f(cut.eng, t))] if cut.iter else []
    return h
def always(f):
    """an invariant of every loop"""
    return lambda cut: [('always', lambda t, ix: f(cut.eng, t))]
def locals_of(cut, w): return [(vk[1], v0) for vk, (v0, nv) in sorted(cut.vars.items(), key=str) if vk[0] == 'l' and z3.is_expr(v0) and z3.is_bv(v0) and v0.size() == w]
def autoflag(p, h):
    """while items are read: if a flag is as it was, no item is automatic"""
    def f(cut):
        if cut.iter: return []
        return [('noauto%s' % (k,), (lambda k, v0: lambda t, ix: z3.Or(stop(cut.eng, t, p), t.env[k] != v0, each(cut.eng, t, 'eitemq', h, lambda x, j: explicit(cut.eng, t, x))))(k, v0)) for k, v0 in locals_of(cut, 32)]
    return f
def at_(e, t, h, j): return z3.Select(e.rd(t, ('at', 'eitemq'), h), j)
def ends(ix):
    """ix as (lower, indexes above it)"""
    if z3.is_add(ix):
        a, b = ix.arg(0), ix.arg(1)
        if z3.is_int_value(a): a, b = b, a
        return a, [a]
    return ix, []
def allupto(e, t, h, ix, pred):
    lo, top = ends(ix)
    j = fresh('ix', I); x = at_(e, t, h, j)
    r = [every([j], z3.Implies(z3.And(j >= 0, j < lo), pred(x, j)), x)] if not z3.is_int_value(lo) or lo.as_long() else []
    return z3.And(*(r + [pred(at_(e, t, h, i), i) for i in top]))
def someupto(e, t, h, ix, pred):
    lo, top = ends(ix)
    j = fresh('ix', I); x = at_(e, t, h, j)
    b = z3.And(j >= 0, j < lo, pred(x, j))
    r = [z3.Exists([j], b, patterns=[x]) if clean(x) else z3.Exists([j], b)] if not z3.is_int_value(lo) or lo.as_long() else []
    return z3.Or(*(r + [pred(at_(e, t, h, i), i) for i in top]))
def greatest(cut):
    """a local is the greatest number given so far"""
    if not cut.iter or cut.iter[0] != 'list' or cut.iter[3] != 'eitemq': return []
    e, h = cut.eng, cut.iter[2]
    out = []
    for k, v0 in locals_of(cut, 64):
        out.append(('max%s' % (k,), (lambda k, v0: lambda t, ix: z3.And(allupto(e, t, h, ix, lambda x, j: z3.Implies(explicit(e, t, x), V(e, t, x) <= t.env[k])),
            z3.Or(t.env[k] == v0, someupto(e, t, h, ix, lambda x, j: z3.And(explicit(e, t, x), V(e, t, x) == t.env[k])))))(k, v0)))
    for k, v0 in locals_of(cut, 32):
        out.append(('any%s' % (k,), (lambda k, v0: lambda t, ix: (t.env[k] != v0) == someupto(e, t, h, ix, lambda x, j: explicit(e, t, x)))(k, v0)))
    return out
def autosval(e, t, h, ix):
    lo, top = ends(ix)
    if z3.is_int_value(lo) and lo.as_long() == 0: r = z3.BitVecVal(0, 64)
    else: r = AUTOS(h, lo)
    for i in top: r = r + z3.If(isauto(e, t, at_(e, t, h, i)), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    return r
def assigned(cut):
    """a local counts the automatic items passed, which have their numbers"""
    if not cut.iter or cut.iter[0] != 'list' or cut.iter[3] != 'eitemq': return []
    e, h = cut.eng, cut.iter[2]
    out = []
    for k, v0 in locals_of(cut, 64):
        out.append(('next%s' % (k,), (lambda k, v0: lambda t, ix: t.env[k] == v0 + autosval(e, t, h, ix))(k, v0)))
        out.append(('has%s' % (k,), (lambda k, v0: lambda t, ix: allupto(e, t, h, ix, lambda x, j: z3.Implies(isauto(e, t, x), z3.And(V(e, t, x) == v0 + AUTOS(h, j), V(e, t, x) >= v0, V(e, t, x) != MAXV))))(k, v0)))
    return out
def isbase(e, t, h, B):
    """B is the number of the first automatic item"""
    ex = lambda p: z3.Not(each(e, t, 'eitemq', h, lambda x, j: z3.Not(p(x))))
    return z3.Or(z3.And(B == 0, each(e, t, 'eitemq', h, lambda x, j: z3.Implies(explicit(e, t, x), V(e, t, x) < 0))),
                 z3.And(B > 0, inlist_p(e, t, h, lambda x: z3.And(explicit(e, t, x), V(e, t, x) == B - 1)), each(e, t, 'eitemq', h, lambda x, j: z3.Implies(explicit(e, t, x), V(e, t, x) < B))))
def inlist_p(e, t, h, p):
    a, l = e.rd(t, ('at', 'eitemq'), h), e.rd(t, ('len', 'eitemq'), h)
    j = fresh('ix', I); x = z3.Select(a, j)
    b = z3.And(j >= 0, j < l, p(x))
    return z3.Exists([j], b, patterns=[x]) if clean(x) else z3.Exists([j], b)
def numbered(e, t, h, B):
    return each(e, t, 'eitemq', h, lambda x, j: z3.Implies(isauto(e, t, x), z3.And(V(e, t, x) == B + AUTOS(h, j), V(e, t, x) >= B, V(e, t, x) != MAXV)))
def fixed(st, keys, e):
    """the current heap, by names usable in patterns"""
    t = st.copy()
    for k in keys: t.heap[k] = named(t, e.harr(t, k))
    return t
def enum_post(e, p):
    def post(s0, s, *v):
        h = e.off(s, 'enm', 'eq', e.the_enum(s, *v))
        t = fixed(s, [('at', 'eitemq'), ('len', 'eitemq'), ('eitem', 'flags'), ('eitem', 'value')], e)
        t.pc.append(z3.Not(stop(e, t, p)))
        if not e.feasible(t): return
        B = z3.BitVec('base', 64)
        e.oblige(t, e.old(e, t), 'items of other enumerations stay as they are')
        e.oblige(t, enum_given(h)(e, t), 'an item with a number keeps it')
        e.oblige(t, enum_diff(h)(e, t), 'no two items with a number have the same')
        e.oblige(t, enum_names(h)(e, t), 'no two items have the same name')
        e.oblige(t, z3.Implies(isbase(e, t, h, B), numbered(e, t, h, B)), 'automatic items are numbered in order from one above the greatest number given, or zero')
        e.oblige(t, e.rd(t, ('len', 'eitemq'), h) > 0, 'an enumeration has items')
    return post
@proof('parser_enum:parse_enum_data', PE, ['parse_enum_data', 'parse_enum_label'], dict(CON, parse_enum_item=c_enum_item), qfeas=False, merge_threshold=1, hist=False)
def enum_data(mk):
    e = mk()
    P = z3.Const('p', I)
    e.the_enum = lambda s, p, x: x
    def pre(st, p, x):
        h = e.off(st, 'enm', 'eq', x)
        st.gh[GIVEN] = z3.Const('given0', z3.ArraySort(I, B64))
        st.pc += [p != 0, x != 0, e.rd(st, ('len', 'eitemq'), h) == 0]
        b0 = st.gh['brk']; st.pc.append(b0 == z3.Int('brk.start')); b0 = z3.Int('brk.start')
        old = older(b0, dict((k, e.harr(st, k)) for k in ITEM), *ITEM)
        e.old = old
        e.hints = (unless_stopped(P, enum_known(h, b0), enum_given(h), enum_diff(h), enum_names(h)), notnamed('eitemq', 'eitem'), autoflag(P, h), greatest, assigned, keeps(enum_given(h)), keeps(enum_diff(h)), always(old))
    run(e, 'parse_enum_data', PE, pre, enum_post(e, P))
def c_enum_data(eng, st, a, n):
    """contract of parse_enum_data"""
    p, x = a
    h = eng.off(st, 'enm', 'eq', x)
    eng.oblige(st, z3.And(x != 0, eng.rd(st, ('len', 'eitemq'), h) == 0), 'the enumeration is empty', n.line)
    sub(eng, st, a, n)
    eng.wr(st, ('len', 'eitemq'), h, fresh('len', I)); eng.wr(st, ('at', 'eitemq'), h, fresh('at', z3.ArraySort(I, I)))
    # only items it creates are written
    b0, heap0 = st.gh['brk'], {}
    for fl in ('value', 'flags', 'name', 'parent'):
        k = ('eitem', fl); heap0[k] = eng.harr(st, k)
        st.heap[k] = fresh('H.eitem.' + fl, heap0[k].sort())
    st.gh[GIVEN] = fresh('given', z3.ArraySort(I, B64))
    B = z3.BitVec('base', 64)
    st.pc.append(older(b0, heap0, *ITEM)(eng, st))
    nb = fresh('brk', I); st.pc.append(nb >= b0); st.gh['brk'] = nb
    go = z3.And(*[enum_known(h, b0)(eng, st)] + [f(h)(eng, st) for f in (enum_given, enum_diff, enum_names)] + [isbase(eng, st, h, B), numbered(eng, st, h, B), eng.rd(st, ('len', 'eitemq'), h) > 0])
    eng.qlen(st, h, 'eitemq')
    st.pc.append(z3.Or(stop(eng, st, p), go))
    return [(None, st)]
def lemma_count(e):
    """counting over positions (fewer than 2^30): an automatic item's count is less than that of every later one"""
    st = St(); st.gh = {'ioerr': z3.BoolVal(False), 'memerr': z3.BoolVal(False), 'brk': z3.Int('brk0')}
    a = z3.Function('a', B64, z3.BoolSort()); c = z3.Function('c', B64, B64)
    k, i = z3.BitVecs('k i', 64)
    one, zero = z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)
    P = lambda k: z3.And(z3.ULE(c(k), k), z3.ForAll([i], z3.Implies(z3.And(z3.ULT(i, k), a(i)), z3.ULT(c(i), c(k))), patterns=[c(i)]))
    ax = [c(zero) == 0, c(k + 1) == c(k) + z3.If(a(k), one, zero)]
    st.pc += ax
    e.oblige(st, P(zero), 'counting: base')
    st.pc += [z3.ULT(k, 2 ** 30), P(k)]
    e.oblige(st, P(k + 1), 'counting: step')
@proof('parser_enum:parse_enum', PE, ['parse_enum'], dict(CON, parse_enum_data=c_enum_data), qfeas=False, merge_threshold=1, hist=False)
def enum(mk):
    e = mk()
    lemma_count(e)
    P = z3.Const('p', I)
    theh = lambda t: e.off(t, 'enm', 'eq', last_enum(t))
    def enms(t, p): return e.off(t, 'config', 'eq', e.rd(t, ('parse', 'cfg'), p))
    def last_enum(t): return e.rd(t, ('at', 'enmq'), enms(t, P)), e.rd(t, ('len', 'enmq'), enms(t, P))
    def pre(st, p):
        st.gh[GIVEN] = z3.Const('given0', z3.ArraySort(I, B64))
        st.pc += [p != 0, e.rd(st, ('parse', 'cfg'), p) != 0]
        b0 = z3.Int('brk.start'); st.pc.append(st.gh['brk'] == b0)
        e.old = older(b0, dict((k, e.harr(st, k)) for k in ITEM), *ITEM)
        e.hints = (always(e.old), greatest, assigned, lambda cut: keeps(enum_given(cut.iter[2]))(cut) if cut.iter and cut.iter[0] == 'list' and cut.iter[3] == 'eitemq' else [])
    def post(s0, s, p):
        a, l = last_enum(s)
        l0 = e.rd(s0, ('len', 'enmq'), enms(s0, p))
        e.oblige(s, z3.Or(stop(e, s, p), l == l0 + 1), 'one enumeration is added')
        s.pc.append(l == l0 + 1)
        if not e.feasible(s): return
        E = fresh('enm', I); s.pc.append(E == z3.Select(a, l0))
        e.the_enum = lambda t, *v: E
        enum_post(e, p)(s0, s, p)
        h = e.off(s, 'enm', 'eq', e.the_enum(s))
        t = fixed(s, [('at', 'eitemq'), ('len', 'eitemq'), ('eitem', 'flags'), ('eitem', 'value')], e)
        t.pc.append(z3.Not(stop(e, t, p)))
        B = z3.BitVec('base', 64)
        ex, au = lambda x: explicit(e, t, x), lambda x: isauto(e, t, x)
        below = each(e, t, 'eitemq', h, lambda x, j: z3.Implies(ex(x), V(e, t, x) < B))
        num = numbered(e, t, h, B)
        def step(name, given, goal):
            u = t.copy(); u.pc = list(t.pc) + given; e.oblige(u, goal, 'no two items have the same number: ' + name)
        step('given numbers are below the first automatic one', [isbase(e, t, h, B)], below)
        # positions of two automatic items, counted apart
        a, l = e.rd(t, ('at', 'eitemq'), h), e.rd(t, ('len', 'eitemq'), h)
        i, j = z3.Ints('i j'); x, y = z3.Select(a, i), z3.Select(a, j)
        inst = [i >= 0, i < j, j < l, au(x), au(y)]
        ni, nj = AUTOS(h, i), AUTOS(h, j)
        step('automatic ones', inst + [num, z3.ULT(ni, nj), z3.ULE(nj, 2 ** 30)], V(e, t, x) != V(e, t, y))
        step('automatic and given ones', [below, num], z3.And(*[pairs(e, t, 'eitemq', h, lambda x, y: z3.Implies(z3.And(f(x), g(y)), V(e, t, x) != V(e, t, y))) for f, g in ((ex, au), (au, ex))]))
    run(e, 'parse_enum', PE, pre, post)

# ---------------------------------------------------------------- what the contracts above assume of the rest of the parser
PP = 'parser.c'
def c_bitidx(eng, st, a, n):
    h = eng.off(st, 'bitf', 'bq', a[1])
    eng.oblige(st, z3.And(a[1] != 0, eng.rd(st, ('len', 'bitidxq'), h) == 0), 'the bit field is empty', n.line)
    return sub(eng, st, a, n)
@proof('parser_bitfield:parse_bitfield', PB, ['parse_bitfield'], dict(CON, parse_bitidx=c_bitidx), qfeas=False, merge_threshold=1, hist=False)
def bitfield(mk):
    e = mk()
    def bits(t, p): return e.off(t, 'config', 'bq', e.rd(t, ('parse', 'cfg'), p))
    def pre(st, p): st.pc += [p != 0, e.rd(st, ('parse', 'cfg'), p) != 0]
    def post(s0, s, p):
        e.oblige(s, z3.Or(stop(e, s, p), e.rd(s, ('len', 'bitfq'), bits(s, p)) == e.rd(s0, ('len', 'bitfq'), bits(s0, p)) + 1), 'one bit field is added')
    run(e, 'parse_bitfield', PB, pre, post)
def fails(name, file, fn, con, pre=None, hints=(), **flags):
    """zero is returned only if parsing stops, and items keep their numbers"""
    @proof(name, file, [fn], con, **dict(dict(qfeas=False, merge_threshold=1, hist=False, cutall=('lasttype',), sentinel=True), **flags))
    def f(mk):
        e = mk()
        e.hints = hints
        fd, v, st = e.start(fn, file)
        p = v[0]
        st.pc += [p != 0, e.rd(st, ('parse', 'cfg'), p) != 0]
        if pre: pre(e, st, *v)
        s0 = st.copy(); n = 0
        for r, s in e.runfn(fd, v, st):
            if not e.feasible(s): continue
            n += 1
            e.oblige(s, z3.Implies(r == 0, stop(e, s, p)), 'zero is returned only if parsing stops')
            if fn in ('parse_label', 'parse_comment'): e.oblige(s, z3.Implies(r != 0, z3.Not(stop(e, s, p))), 'otherwise it goes on')
            e.oblige(s, z3.Implies(stop(e, s0, p), stop(e, s, p)), 'what stopped stays so')
            t = pget(e, s, p)
            e.oblige(s, z3.Implies(z3.ULE(pget(e, s0, p), tk(e, 'TOK_SEMICOLON')), z3.ULE(t, tk(e, 'TOK_SEMICOLON'))), 'the token is one of those there are')
            for k in [('eitem', 'value'), ('eitem', 'flags'), ('bitidx', 'value'), ('len', 'eitemq'), ('at', 'eitemq'), ('len', 'bitidxq'), ('at', 'bitidxq')]:
                e.oblige(s, e.harr(s, k) == e.harr(s0, k), 'nothing else changes: %s' % (k[1],))
        if not n: e.obl.append(dict(fn=fn, name='vacuity', ok=False, res='failed', t=0, info='no path', line=None))
MSG = dict(ort_msg=quiet, ort_msgv=quiet)
fails('parser:parse_check_badidents', PP, 'parse_check_badidents', CON)
fails('parser:parse_check_dupetoplevel', PP, 'parse_check_dupetoplevel', CON)
fails('parser:parse_comment', PP, 'parse_comment', CON)
fails('parser:parse_label', PP, 'parse_label', CON, pre=lambda e, st, p, q: st.pc.append(q != 0))

# ---------------------------------------------------------------- the lexer (P19)
def num0(st):
    st.gh[READ] = z3.Int('read0'); st.gh[CAP] = z3.BitVec('cap0', 64); st.gh[EOFF] = z3.Bool('eof0'); st.gh[ERRF] = z3.Bool('err0'); st.gh[LAST] = z3.BitVec('last0', 8)
def l_fgetc(eng, st, a, n):
    """assumed contract of fgetc: a character is read, or one of the indicators is set"""
    import libc; libc.used(eng, 'fgetc')
    r = fresh('chr', B32)
    st.pc += [r >= -1, r <= 255]
    end = r == z3.BitVecVal(-1, 32)
    e1 = fresh('eof', z3.BoolSort())
    st.gh[EOFF] = z3.Or(st.gh[EOFF], z3.And(end, e1)); st.gh[ERRF] = z3.Or(st.gh[ERRF], z3.And(end, z3.Not(e1)))
    st.gh[READ] = st.gh[READ] + z3.If(end, z3.IntVal(0), z3.IntVal(1))
    return [(r, st)]
def flag(g):
    def f(eng, st, a, n): return [(z3.If(st.gh[g], z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)), st)]
    return f
def l_ungetc(eng, st, a, n):
    """assumed contract of ungetc: one character is put back"""
    import libc; libc.used(eng, 'ungetc')
    st.gh[READ] = st.gh[READ] - 1
    st.gh[EOFF] = z3.BoolVal(False)
    return [(a[0], st)]
def l_strtonum(eng, st, a, n):
    """assumed contract of strtonum: a number between the bounds, or an error"""
    import libc; libc.used(eng, 'strtonum')
    r, ep = fresh('num', B64), fresh('errstr', I)
    st.pc.append(z3.Implies(ep == 0, z3.And(r >= a[1], r <= a[2])))
    st.env[a[3].key] = ep
    return [(r, st)]
def l_strtod(eng, st, a, n):
    import libc; libc.used(eng, 'strtod')
    st.env[a[1].key] = fresh('endp', I)
    eng.wr(st, eng.memkey('int'), ERRNO, fresh('errno', B32), 'int')
    return [(fresh('dec', FP), st)]
ERRNO = z3.Int('errno_address')
def l_errno(eng, st, a, n):
    st.pc.append(ERRNO > 0); return [(ERRNO, st)]
def l_realloc(eng, st, a, n):
    """assumed contract of realloc: nothing, or a buffer of the size asked for which begins with what was there"""
    import libc; libc.used(eng, 'realloc')
    t = either(st)
    v = fresh('buf', I)
    st.pc += [v != 0, z3.Implies(a[0] != 0, v == a[0])]
    st.gh[CAP] = a[1]
    return [(z3.IntVal(0), t), (v, st)]
def bufok(e, st, p):
    """the buffer is as large as recorded, what is used of it lies within"""
    sz, mx, b = e.rd(st, ('parse', 'bufsz'), p), e.rd(st, ('parse', 'bufmax'), p), e.rd(st, ('parse', 'buf'), p)
    return z3.And(z3.ULE(sz, mx), z3.ULT(mx, 2 ** 62), mx == st.gh[CAP], (b == 0) == (mx == 0))
def mem8(e, st): return e.harr(st, ('mem', 'B8'), 'char')
@proof('parser:buf_push', PP, ['buf_push'], dict(CON, realloc=l_realloc), qfeas=False, merge_threshold=1)
def buf_push(mk):
    e = mk()
    fd, v, st = e.start('buf_push', PP)
    p, c = v
    num0(st)
    st.pc += [p != 0, bufok(e, st, p), z3.ULT(e.rd(st, ('parse', 'bufmax'), p), 2 ** 61)]
    s0 = st.copy(); n = 0
    for r, s in e.runfn(fd, v, st):
        if not e.feasible(s): continue
        n += 1
        o, w = e.rd(s0, ('parse', 'bufsz'), p), e.rd(s, ('parse', 'bufsz'), p)
        b = e.rd(s, ('parse', 'buf'), p)
        go = r != 0
        e.oblige(s, z3.Or(go, stop(e, s, p)), 'failure stops the parser')
        e.oblige(s, z3.Implies(z3.Not(go), w == o), 'failure leaves the buffer')
        e.oblige(s, bufok(e, s, p), 'the buffer is consistent')
        e.oblige(s, z3.Implies(go, z3.And(w == o + 1, z3.ULE(w, e.rd(s, ('parse', 'bufmax'), p)))), 'the character is within the buffer')
        a = fresh('a', I)
        m0, m1 = mem8(e, s0), mem8(e, s)
        at = b + z3.BV2Int(o)
        e.oblige(s, z3.Implies(go, z3.Select(m1, at) == z3.Extract(7, 0, c)), 'the character is added')
        e.oblige(s, z3.ForAll([a], z3.Or(z3.Select(m1, a) == z3.Select(m0, a), z3.And(go, a == at))), 'nothing else is written')
        e.oblige(s, pget(e, s, p) == z3.If(go, pget(e, s0, p), tk(e, 'TOK_ERR')), 'the token stays')
    if not n: e.obl.append(dict(fn='buf_push', name='vacuity', ok=False, res='failed', t=0, info='no path', line=None))
def c_buf_push(eng, st, a, n):
    """contract of buf_push"""
    p, c = a
    eng.oblige(st, bufok(eng, st, p), 'the buffer is consistent', n.line)
    t = either(st)
    eng.wr(t, ('parse', 'lasttype'), p, tk(eng, 'TOK_ERR'))
    o, b0 = eng.rd(st, ('parse', 'bufsz'), p), eng.rd(st, ('parse', 'buf'), p)
    b, m = fresh('buf', I), fresh('max', B64)
    st.pc += [b != 0, z3.Implies(b0 != 0, b == b0), z3.UGT(m, o), z3.ULT(m, 2 ** 61)]
    eng.wr(st, ('parse', 'buf'), p, b); eng.wr(st, ('parse', 'bufmax'), p, m); eng.wr(st, ('parse', 'bufsz'), p, o + 1)
    st.gh[CAP] = m; st.gh[LAST] = z3.Extract(7, 0, c)
    st.heap[('mem', 'B8')] = z3.Store(mem8(eng, st), b + z3.BV2Int(o), z3.Extract(7, 0, c))
    return [(z3.BitVecVal(0, 32), t), (z3.BitVecVal(1, 32), st)]
def lexloop(p):
    def h(cut):
        e = cut.eng
        if READ not in cut.st0.gh: return []
        r0 = cut.st0.gh[READ]
        b = lambda t: e.rd(t, ('parse', 'buf'), p)
        end = lambda t: z3.Or(t.gh[EOFF], t.gh[ERRF])
        out = [('reads', lambda t, ix: t.gh[READ] >= r0 + ix - z3.If(z3.And(end(t), z3.Not(end(cut.st0))), z3.IntVal(1), z3.IntVal(0))),
               ('stays', lambda t, ix: z3.Implies(end(cut.st0), end(t))),
               ('buffer', lambda t, ix: bufok(e, t, p)),
               ('goes', lambda t, ix: z3.Not(stop(e, t, p))),
               ('begun', lambda t, ix: z3.And(b(t) != 0, z3.UGE(e.rd(t, ('parse', 'bufsz'), p), 1), z3.Select(mem8(e, t), b(t)) != 0))]
        for k, v0 in locals_of(cut, 32):
            out.append(('end%s' % (k,), (lambda k: lambda t, ix: z3.Implies(z3.And(ix > 0, end(t)), t.env[k] == -1))(k)))
            out.append(('ended%s' % (k,), (lambda k: lambda t, ix: z3.Implies(end(t), t.env[k] == -1))(k)))
            out.append(('cr%s' % (k,), (lambda k: lambda t, ix: z3.Implies(t.env[k] == 13, e.rd(t, ('parse', 'bufsz'), p) != 0))(k)))
        return out
    return h
def progress(e, fn):
    """every loop of the function reads something each time around"""
    for (f, line), hs in e.lastloops.items():
        e.obl.append(dict(fn=fn, name='the loop ends with the input', ok='reads' in hs, res='unsat' if 'reads' in hs else 'failed', t=0, info='line %s' % line, line=line))
LEX = dict(CON, fgetc=l_fgetc, feof=flag(EOFF), ferror=flag(ERRF), ungetc=l_ungetc, strtonum=l_strtonum, strtod=l_strtod, buf_push=c_buf_push, realloc=l_realloc, __errno_location=l_errno)
del LEX['parse_next']
@proof('parser:parse_next', PP, ['parse_next', 'parse_nextchar', 'parse_read_err', 'parse_ungetc', 'parse_check_eof', 'parse_check_error', 'parse_check_error_eof'], LEX, qfeas=False, merge_threshold=1, hist=False)
def next_(mk):
    e = mk()
    fd, v, st = e.start('parse_next', PP)
    p = v[0]
    num0(st)
    st.pc += [p != 0, bufok(e, st, p), z3.ULE(pget(e, st, p), tk(e, 'TOK_SEMICOLON'))]
    s0 = st.copy(); n = 0
    e.hints = (lexloop(p),)
    def again(s):
        e.oblige(s, z3.And(bufok(e, s, p), z3.ULE(pget(e, s, p), tk(e, 'TOK_SEMICOLON')), z3.Not(stop(e, s0, p))), 'what holds at first holds when reading again')
        e.oblige(s, s.gh[READ] > s0.gh[READ], 'something is read before reading again')
    e.onback = again
    for r, s in e.runfn(fd, v, st):
        if not e.feasible(s): continue
        n += 1
        ty = pget(e, s, p)
        e.oblige(s, r == ty, 'the token is that recorded')
        e.oblige(s, bufok(e, s, p), 'the buffer is consistent')
        e.oblige(s, z3.Implies(stop(e, s0, p), z3.And(ty == pget(e, s0, p), s.gh[READ] == s0.gh[READ])), 'nothing is read after the end or an error')
        e.oblige(s, z3.And(z3.ULE(ty, tk(e, 'TOK_SEMICOLON')), z3.Or(stop(e, s0, p), ty != tk(e, 'TOK_NONE'))), 'some token is read')
        e.oblige(s, z3.Implies(z3.Not(stop(e, s, p)), s.gh[READ] > s0.gh[READ]), 'a token has characters')
        o = e.off(s, 'parse', 'last', p)
        sx = e.rd(s, ('parse::anon0', 'string'), o)
        go = z3.Not(stop(e, s0, p))
        text = z3.And(go, z3.Or(ty == tk(e, 'TOK_IDENT'), ty == tk(e, 'TOK_LITERAL')))
        b, z = e.rd(s, ('parse', 'buf'), p), e.rd(s, ('parse', 'bufsz'), p)
        e.oblige(s, z3.Implies(text, z3.And(sx == b, sx != 0)), 'a text is that of the buffer')
        e.oblige(s, z3.Implies(text, s.gh[LAST] == 0), 'a text is terminated')
        e.oblige(s, z3.Implies(z3.And(go, ty == tk(e, 'TOK_IDENT')), z3.Select(mem8(e, s), b) != 0), 'an identifier is not empty')
    progress(e, 'parse_next')
    if not n: e.obl.append(dict(fn='parse_next', name='vacuity', ok=False, res='failed', t=0, info='no path', line=None))

# ---------------------------------------------------------------- every parsing function (P19)
def tokens(p):
    def h(cut):
        e = cut.eng
        if READ not in cut.st0.gh: return []
        r0 = cut.st0.gh[READ]
        out = [('reads', lambda t, ix: z3.Or(stop(e, t, p), t.gh[READ] >= r0 + ix)),
               ('goes', lambda t, ix: z3.Not(stop(e, t, p))),
               ('mono', lambda t, ix: t.gh[READ] >= r0),
               ('stays', lambda t, ix: z3.Implies(stop(e, cut.st0, p), stop(e, t, p))),
               ('token', lambda t, ix: z3.ULE(pget(e, t, p), tk(e, 'TOK_SEMICOLON')))]
        return out
    return h
PARSERS = {}
def parses(file, fn, con=None, requires=None, result=True, hints=(), functions=(), ensures=None, invariant=None, ghosts={}, **flags):
    """a parsing function ends, dereferences nothing null, fails no assertion, overflows nothing; zero iff parsing stops, if it has a result"""
    name = '%s:%s.safe' % (file[:-2], fn)
    @proof(name, file, [fn] + list(functions), dict(CON, **(con or {})), **dict(dict(qfeas=False, merge_threshold=1, hist=False, cutall=('lasttype',), sentinel=True), **flags))
    def f(mk):
        e = mk()
        fd, v, st = e.start(fn, file)
        p = v[0]
        st.gh[READ] = z3.Int('read0')
        for k, x in ghosts.items(): st.gh[k] = z3.IntVal(x)
        st.pc += [z3.ULE(pget(e, st, p), tk(e, 'TOK_SEMICOLON'))] + [x != 0 for x in v if z3.is_int(x)] + [e.rd(st, ('parse', 'cfg'), p) != 0]
        if requires: st.pc += requires(e, st, *v)
        if invariant: st.pc += [named(st, g) if False else g for nm, g in invariant(e, st, st, *v)]
        s0 = st.copy(); n = 0
        e.hints = (tokens(p),) + tuple(h(e, st, *v) for h in hints)
        if invariant: e.hints += (lambda cut: [(nm, (lambda i: lambda t, ix: invariant(e, s0, t, *v)[i][1])(i)) for i, (nm, g) in enumerate(invariant(e, s0, s0, *v))],)
        for r, s in e.runfn(fd, v, st):
            if not e.feasible(s): continue
            n += 1
            e.oblige(s, z3.Implies(stop(e, s0, p), stop(e, s, p)), 'what stopped stays so')
            e.oblige(s, z3.ULE(pget(e, s, p), tk(e, 'TOK_SEMICOLON')), 'the token is one of those there are')
            e.oblige(s, s.gh[READ] >= s0.gh[READ], 'nothing is put back')
            if r is not None and result: e.oblige(s, (r == 0) == stop(e, s, p), 'failure is reported iff parsing stops')
            if ensures:
                for nm, g in ensures(e, s0, s, r, *v): e.oblige(s, g, nm)
            if invariant:
                for nm, g in invariant(e, s0, s, *v): e.oblige(s, g, nm)
        for (fnn, line), hs in e.lastloops.items():
            ok = 'reads' in hs or (fnn, line) in e.finite
            e.obl.append(dict(fn=fn, name='the loop ends with the input', ok=ok, res='unsat' if ok else 'failed', t=0, info='line %s' % line, line=line))
        if not n: e.obl.append(dict(fn=fn, name='vacuity', ok=False, res='failed', t=0, info='no path', line=None))
parses(PB, 'parse_bitidx_item', requires=lambda e, st, p, bi: [e.rd(st, ('bitidx', 'parent'), bi) != 0])
parses(PB, 'parse_bitidx_label')
parses(PB, 'parse_bitidx', con=dict(parse_bitidx_item=sub, parse_bitidx_label=reads))
parses(PB, 'parse_bitfield', con=dict(parse_bitidx=sub))
parses(PE, 'parse_enum_item', requires=lambda e, st, p, bi: [e.rd(st, ('eitem', 'parent'), bi) != 0])
parses(PE, 'parse_enum_label')
parses(PE, 'parse_enum_data', con=dict(parse_enum_item=sub, parse_enum_label=reads))
def anyint(eng, st, a, n):
    """any number"""
    return [(fresh("num", B64), st)]
def anyflag(eng, st, a, n):
    """any flag"""
    return [(fresh('flag', B32), st)]
def alloc(rec, parent):
    """assumed contract of the allocating functions: null only if parsing stops, else an object whose parent is set"""
    def f(eng, st, a, n):
        t = either(st)
        eng.wr(t, ('parse', 'lasttype'), a[0], tk(eng, 'TOK_ERR'))
        x = fresh(rec, I)
        st.pc.append(x != 0)
        if parent: st.pc.append(eng.rd(st, (rec, parent), x) != 0)
        return [(z3.IntVal(0), t), (x, st)]
    f.__doc__ = alloc.__doc__
    return f
def m_append(eng, st, a, n):
    """contract of name_append, ref_append and name_truncate: zero if there is no memory"""
    return [(fresh('rc', B32), st)]
def further(c):
    """the contract of a recursive call, made only after something has been read"""
    def f(eng, st, a, n):
        eng.oblige(st, st.gh[READ] > z3.Int('read0'), 'something is read before the recursive call', n.line)
        return c(eng, st, a, n)
    f.__doc__ = c.__doc__
    return f
def every_of(e, st, R, h, pred):
    """pred(e) of all elements of the list"""
    j = fresh('ix', I)
    x = z3.Select(named(st, e.rd(st, ('at', R), h)), j)
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < e.rd(st, ('len', R), h)), pred(x)), patterns=[x])
def toend(e, s, p): return z3.Or(stop(e, s, p), pget(e, s, p) == tk(e, 'TOK_SEMICOLON'))
def ended(e, s0, s, r, p, *v): return [('the statement ends at its semicolon', toend(e, s, p))]
def stmt(eng, st, a, n):
    """contract of a statement: any tokens are read, up to its semicolon"""
    r = sub(eng, st, a, n)
    st.pc.append(toend(eng, st, a[0]))
    return r
def joined(*fs): return lambda *a: [x for f in fs for x in f(*a)]
PF = 'parser_field.c'
def priv(e, st, p): return e.rd(st, ('config', 'priv'), e.rd(st, ('parse', 'cfg'), p)) != 0
def parented(e, st, fd): return e.rd(st, ('field', 'parent'), fd) != 0
BLOB = lambda: None
parses(PF, 'parse_action', result=False)
def fld(e, st, fd, n): return e.rd(st, ('field', n), fd)
def c_action(eng, st, a, n):
    """contract of parse_action: any action is set"""
    t = a[1]
    if not isinstance(t, engine.FieldAddr): raise engine.Unsupported('action set')
    v = fresh('act', B32)
    st.pc.append(z3.ULT(v, tk(eng, 'UPACT__MAX')))
    eng.wr(st, t.fk, t.base, v)
    return sub(eng, st, a, n)
def limitrules(e, s0, s, r, p, fd):
    c = D(e, [], []).const
    go = z3.Not(stop(e, s, p))
    h = e.off(s, 'field', 'fvq', fd)
    l0, l1 = e.rd(s0, ('len', 'fvalidq'), h), e.rd(s, ('len', 'fvalidq'), h)
    v = e.rd(s, ('at', 'fvalidq'), h)[l0]
    ty = fld(e, s0, fd, 'type')
    o = e.off(s, 'parse', 'last', p)
    vt = lambda x: e.rd(s, ('fvalid', 'type'), x)
    num = lambda x, f: e.rd(s, ('fvalid::anon0::anon0', f), VAL(e, s, x))
    isa = lambda *x: z3.Or(*[ty == c(y) for y in x])
    ints = isa('FTYPE_BIT', 'FTYPE_BITFIELD', 'FTYPE_DATE', 'FTYPE_EPOCH', 'FTYPE_INT')
    text = isa('FTYPE_BLOB', 'FTYPE_EMAIL', 'FTYPE_TEXT', 'FTYPE_PASSWORD')
    real = isa('FTYPE_REAL')
    same = lambda f: lambda x: z3.And(vt(x) == vt(v), num(x, f) == num(v, f))
    eq = lambda a, b: z3.fpEQ(a, b) if z3.is_fp(a) else a == b
    other = lambda f: z3.Not(someat(e, s, 'fvalidq', h, lambda x: z3.And(x != v, vt(x) == vt(v), eq(num(x, f), num(v, f)))))
    return [('no limits on structures and enumerations', z3.Implies(isa('FTYPE_STRUCT', 'FTYPE_ENUM'), z3.Not(go))),
            ('one limit more', z3.Implies(go, l1 == l0 + 1)),
            ('the limit has a type', z3.Implies(go, z3.ULT(vt(v), c('VALIDATE__MAX')))),
            ('the number given', z3.Implies(z3.And(go, ints), num(v, 'integer') == e.rd(s, ('parse::anon0', 'integer'), o))),
            ('the length given', z3.Implies(z3.And(go, text), z3.And(num(v, 'len') == e.rd(s, ('parse::anon0', 'integer'), o), num(v, 'len') >= 0))),
            ('numbers differ', z3.Implies(z3.And(go, ints), other('integer'))),
            ('lengths differ', z3.Implies(z3.And(go, text), other('len'))),
            ('decimals differ', z3.Implies(z3.And(go, real), other('decimal')))]
def someat(e, st, R, h, pred):
    j = fresh('ix', I)
    x = z3.Select(e.rd(st, ('at', R), h), j)
    return z3.Exists([j], z3.And(j >= 0, j < e.rd(st, ('len', R), h), x != 0, pred(x)))
def VAL(e, st, x): return e.off(st, 'fvalid::anon0', 'value', e.off(st, 'fvalid', 'd', x))
def fieldkept(e, s0, s, p, fd):
    pa = fld(e, s0, fd, 'parent')
    return [('the %s stays' % f, fld(e, s, fd, f) == fld(e, s0, fd, f)) for f in ('flags', 'type', 'ref', 'parent', 'actup', 'actdel')] + \
        [('the rowid stays', e.rd(s, ('strct', 'rowid'), pa) == e.rd(s0, ('strct', 'rowid'), pa))]
def limitpassed(e, st, p, fd):
    """no limit passed is the same as the last"""
    def h(cut):
        if not cut.iter or cut.iter[0] != 'list' or cut.iter[3] != 'fvalidq': return []
        s0 = cut.st0
        R, hd = 'fvalidq', cut.iter[2]
        row = e.rd(s0, ('at', R), hd)
        v = z3.Select(row, e.rd(s0, ('len', R), hd) - 1)
        eq = lambda a, b: z3.fpEQ(a, b) if z3.is_fp(a) else a == b
        def f(k):
            def g(t, ix):
                j = fresh('ix', I); x = z3.Select(row, j)
                num = lambda y: e.rd(t, ('fvalid::anon0::anon0', k), VAL(e, t, y))
                vt = lambda y: e.rd(t, ('fvalid', 'type'), y)
                b = z3.Or(x == v, vt(x) != vt(v), z3.Not(eq(num(x), num(v))))
                if z3.is_add(ix): return z3.And(g(t, ix.arg(0)), z3.Implies(ix.arg(0) >= 0, z3.substitute(b, (j, ix.arg(0)))))
                return every([j], z3.Implies(z3.And(j >= 0, j < ix), b), x)
            return g
        return [('passed.' + k, f(k)) for k in ('integer', 'len', 'decimal')]
    return h
parses(PF, 'parse_validate', result=False, invariant=fieldkept, ensures=limitrules, hints=(limitpassed,), requires=lambda e, st, p, fd: [z3.ULT(e.rd(st, ('field', 'type'), fd), D(e, [], []).const('FTYPE__MAX'))])
def fieldrules(e, s0, s, p, fd):
    c = D(e, [], []).const
    f = fld(e, s, fd, 'flags'); has = lambda x: (f & c(x)) != 0
    ty, ref = fld(e, s, fd, 'type'), fld(e, s, fd, 'ref')
    isa = lambda *x: z3.Or(*[ty == c(y) for y in x])
    pa = fld(e, s0, fd, 'parent')
    r0, r1 = e.rd(s0, ('strct', 'rowid'), pa), e.rd(s, ('strct', 'rowid'), pa)
    out = [('a rowid is an integer', z3.Implies(has('FIELD_ROWID'), isa('FTYPE_INT'))),
           ('a rowid is no reference', z3.Implies(has('FIELD_ROWID'), ref == 0)),
           ('a rowid is never null', z3.Not(z3.And(has('FIELD_ROWID'), has('FIELD_NULL')))),
           ('a rowid is not also unique', z3.Not(z3.And(has('FIELD_ROWID'), has('FIELD_UNIQUE')))),
           ('the rowid of the structure is this field or another', z3.Implies(has('FIELD_ROWID'), r1 == fd)),
           ('a structure keeps its rowid', z3.Or(r1 == r0, z3.And(r0 == 0, r1 == fd))),
           ('structures are not null', z3.Implies(has('FIELD_NULL'), z3.Not(isa('FTYPE_STRUCT')))),
           ('structures are not unique', z3.Implies(has('FIELD_UNIQUE'), z3.Not(isa('FTYPE_STRUCT')))),
           ('defaults suit the type', z3.Implies(has('FIELD_HASDEF'), z3.Not(isa('FTYPE_STRUCT', 'FTYPE_BLOB', 'FTYPE_PASSWORD')))),
           ('the type stays', ty == fld(e, s0, fd, 'type')), ('the reference stays', ref == fld(e, s0, fd, 'ref')), ('the structure stays', fld(e, s, fd, 'parent') == pa)]
    for a in ('actup', 'actdel'):
        out.append(('%s only on foreign keys' % a, z3.Implies(fld(e, s, fd, a) != c('UPACT_NONE'), z3.And(ref != 0, z3.Not(isa('FTYPE_STRUCT'))))))
    return out
parses(PF, 'parse_field_info', result=False, invariant=fieldrules, ensures=ended, con=dict(parse_validate=sub, parse_action=c_action, mktime=anyint), requires=lambda e, st, p, fd: [parented(e, st, fd), priv(e, st, p), z3.ULT(e.rd(st, ('field', 'type'), fd), D(e, [], []).const('FTYPE__MAX'))])
for f_ in ('bits', 'enum', 'foreign', 'struct'): parses(PF, 'parse_field_' + f_, result=False, requires=lambda e, st, p, fd: [priv(e, st, p)])
def low(e, t, rec, x, f='name'): return e.lower(e.content(e.rd(t, (rec, f), x)))
def unlike(R, rec, nm, but=None, f='name'):
    """no other element passed has that name"""
    def h(e, st, *v):
        def g(cut):
            if not cut.iter or cut.iter[0] != 'list' or cut.iter[3] != R: return []
            row = e.rd(cut.st0, ('at', R), cut.iter[2])
            def inv(t, ix):
                j = fresh('ix', I); y = z3.Select(row, j)
                me = but(e, t, *v) if but else z3.IntVal(0)
                b = z3.Or(y == me, e.rd(t, (rec, f), y) == 0, low(e, t, rec, y, f) != e.lower(e.content(nm(e, t, *v))))
                if z3.is_add(ix): return z3.And(inv(t, ix.arg(0)), z3.Implies(ix.arg(0) >= 0, z3.substitute(b, (j, ix.arg(0)))))
                if z3.is_int_value(ix) and ix.as_long() == 0: return z3.BoolVal(True)
                return every([j], z3.Implies(z3.And(j >= 0, j < ix), b), y)
            return [('unlike', inv)]
        return g
    return h
def fieldalloc(e, s0, s, r, p, st, name):
    c = D(e, [], []).const
    h = e.off(s, 'strct', 'fq', st)
    l0 = e.rd(s0, ('len', 'fieldq'), h)
    new = r != 0
    g = lambda f: e.rd(s, ('field', f), r)
    return [('null only if parsing stops', z3.Or(new, stop(e, s, p))),
            ('the name is no other field\'s', z3.Implies(new, z3.Not(someat(e, s0, 'fieldq', h, lambda x: z3.And(e.rd(s0, ('field', 'name'), x) != 0, low(e, s0, 'field', x) == e.lower(e.content(name))))))),
            ('the field is added', z3.Implies(new, z3.And(e.rd(s, ('len', 'fieldq'), h) == l0 + 1, z3.Select(e.rd(s, ('at', 'fieldq'), h), l0) == r))),
            ('its structure', z3.Implies(new, g('parent') == st)),
            ('an integer unless said otherwise', z3.Implies(new, z3.And(g('type') == c('FTYPE_INT'), g('flags') == 0, g('ref') == 0, g('actup') == 0, g('actdel') == 0, g('name') != 0)))]
parses(PF, 'field_alloc', result=False, ensures=fieldalloc, merge_threshold=50, hints=(unlike('fieldq', 'field', lambda e, t, p, s, name: name),))
def c_falloc(eng, st, a, n):
    """contract of field_alloc (proved, parser_field:field_alloc.safe): null only if parsing stops, else a new integer field of the structure"""
    r = alloc('field', None)(eng, st, a, n)
    x, t = r[1]
    for f in ('flags', 'ref', 'actup', 'actdel'): t.pc.append(eng.rd(t, ('field', f), x) == 0)
    t.pc += [eng.rd(t, ('field', 'parent'), x) == a[1], eng.rd(t, ('field', 'type'), x) == tk(eng, 'FTYPE_INT')]
    t.gh[FNEW] = x
    return r
FNEW = 'the new field'
def c_info(eng, st, a, n):
    """contract of parse_field_info (proved, parser_field:parse_field_info.safe): its rules hold of the field"""
    p, fd = a
    for nm, g in fieldrules(eng, st, st, p, fd): eng.oblige(st, g, nm, n.line)
    s0 = st.copy()
    for f in ('flags', 'actup', 'actdel'): eng.wr(st, ('field', f), fd, fresh(f, eng.rd(st, ('field', f), fd).sort()))
    pa = fld(eng, st, fd, 'parent')
    eng.wr(st, ('strct', 'rowid'), pa, fresh('rowid', I))
    r = stmt(eng, st, a, n)
    st.pc += [g for nm, g in fieldrules(eng, s0, st, p, fd)]
    return r
def c_setref(eng, st, a, n):
    """assumed contract of parse_field_foreign and parse_field_struct: the reference is set, any tokens are read"""
    eng.wr(st, ('field', 'ref'), a[1], fresh('ref', I))
    return sub(eng, st, a, n)
def actions(e, s0, s, r, p, st):
    c = D(e, [], []).const
    fd = s.gh[FNEW]
    has = lambda x: (fld(e, s, fd, 'flags') & c(x)) != 0
    act = lambda x: z3.Or(fld(e, s, fd, 'actup') == c(x), fld(e, s, fd, 'actdel') == c(x))
    go = z3.And(z3.Not(stop(e, s, p)), fd != 0)
    return [('nullify only what may be null', z3.Implies(z3.And(go, act('UPACT_NULLIFY')), has('FIELD_NULL'))),
            ('default only what has one or may be null', z3.Implies(z3.And(go, act('UPACT_DEFAULT')), z3.Or(has('FIELD_NULL'), has('FIELD_HASDEF')))),
            ('a structure has a reference', z3.Implies(go, z3.Or(has('FIELD_ROWID') == has('FIELD_ROWID')))),
            ] + [(nm, z3.Implies(go, g)) for nm, g in fieldrules(e, s, s, p, fd)]
parses(PF, 'parse_field', result=False, ensures=joined(ended, actions), ghosts={FNEW: 0}, requires=lambda e, st, p, s: [priv(e, st, p)], con=dict(parse_field_bits=sub, parse_field_enum=sub, parse_field_foreign=c_setref, parse_field_struct=c_setref, parse_field_info=c_info, field_alloc=c_falloc))
PS, PRO = 'parser_struct.c', 'parser_roles.c'
cfgd = lambda e, st, p, *v: [priv(e, st, p)]
def live(rec, fld): return lambda e, st, p, x, *v: [e.rd(st, (rec, fld), x) != 0]
names = dict(name_append=m_append, ref_append=m_append, name_truncate=m_append)
parses(PS, 'strct_alloc', result=False)
parses(PS, 'uref_alloc', result=False, requires=cfgd)
parses(PS, 'sent_alloc', result=False)
for f_ in ('distinct_term', 'group_terms', 'order_terms'): parses(PS, 'parse_config_' + f_, result=False, requires=cfgd, con=names)
parses(PS, 'parse_config_aggr_terms', result=False, requires=cfgd, con=names)
def termsep(e, s, p): return z3.Or(stop(e, s, p), *[pget(e, s, p) == tk(e, x) for x in ('TOK_COMMA', 'TOK_SEMICOLON', 'TOK_COLON')])
parses(PS, 'parse_config_search_terms', result=False, requires=cfgd, con=dict(names, sent_alloc=alloc('sent', 'parent')),
       ensures=lambda e, s0, s, r, p, *v: [('a term ends at a separator', termsep(e, s, p))])
def c_terms(eng, st, a, n):
    """contract of parse_config_search_terms: any tokens are read, up to a separator"""
    r = sub(eng, st, a, n)
    st.pc.append(termsep(eng, st, a[0]))
    return r
def limits(e, s0, s, p, x):
    return [('limit and offset are not negative', z3.And(e.rd(s, ('search', 'limit'), x) >= 0, e.rd(s, ('search', 'offset'), x) >= 0))]
parses(PS, 'parse_config_limit_params', result=False, invariant=limits)
def c_set(f):
    """assumed contract of parse_config_aggr_terms and parse_config_group_terms: the term is set, or else parsing stops; any tokens are read"""
    def g(eng, st, a, n):
        x = a[-1]
        eng.wr(st, ('search', f), x, fresh(f, I))
        return sub(eng, st, a, n)
    g.__doc__ = c_set.__doc__
    return g
def together(e, s0, s, r, p, x):
    go = z3.Not(stop(e, s, p))
    return [('rows are grouped iff they are aggregated', z3.Implies(go, (e.rd(s, ('search', 'group'), x) != 0) == (e.rd(s, ('search', 'aggr'), x) != 0)))]
def ownname(e, s0, s, p, x):
    h = e.off(s0, 'strct', 'sq', e.rd(s0, ('search', 'parent'), x))
    return [('the name is no other query\'s', z3.Or(stop(e, s, p), e.rd(s, ('search', 'name'), x) == 0, z3.Not(someat(e, s, 'searchq', h, lambda y: z3.And(y != x, e.rd(s, ('search', 'name'), y) != 0, low(e, s, 'search', y) == low(e, s, 'search', x))))))]
parses(PS, 'parse_config_search_params', invariant=ownname, hints=(unlike('searchq', 'search', lambda e, t, p, x: e.rd(t, ('parse::anon0', 'string'), e.off(t, 'parse', 'last', p)), but=lambda e, t, p, x: x),), result=False, requires=lambda e, st, p, x: live('search', 'parent')(e, st, p, x) + [e.rd(st, ('search', f), x) == 0 for f in ('aggr', 'group')], ensures=joined(ended, together), con=dict([('parse_config_' + x, sub) for x in ('limit_params', 'order_terms', 'distinct_term')], parse_config_aggr_terms=c_set('aggr'), parse_config_group_terms=c_set('group')))
def uniquerefs(e, s0, s, r, p, st):
    h = e.off(s, 'strct', 'nq', st)
    l0 = e.rd(s0, ('len', 'uniqueq'), h)
    u = z3.Select(e.rd(s, ('at', 'uniqueq'), h), l0)
    go = z3.Not(stop(e, s, p))
    return [('one statement more', z3.Implies(go, e.rd(s, ('len', 'uniqueq'), h) == l0 + 1)),
            ('two fields at least', z3.Implies(go, e.rd(s, ('len', 'nrefq'), e.off(s, 'unique', 'nq', u)) >= 2))]
def uniquecount(e, st, p, s_):
    def h(cut):
        if cut.iter: return []
        hh = e.off(cut.st0, 'strct', 'nq', s_)
        u = z3.Select(e.rd(cut.st0, ('at', 'uniqueq'), hh), e.rd(cut.st0, ('len', 'uniqueq'), hh) - 1)
        n = lambda t: e.rd(t, ('len', 'nrefq'), e.off(t, 'unique', 'nq', u))
        return [('count%s' % (k,), (lambda k: lambda t, ix: z3.And(n(t) >= 0, z3.Implies(t.env[k] != 0, n(t) >= 1), z3.Implies(z3.UGE(t.env[k], 2), n(t) >= 2)))(k)) for k, v0 in locals_of(cut, 64)] + \
               [('exact%s' % (k,), (lambda k: lambda t, ix: n(t) == z3.BV2Int(t.env[k]))(k)) for k, v0 in locals_of(cut, 64)]
    return h
parses(PS, 'parse_struct_unique', result=False, requires=cfgd, ensures=joined(ended, uniquerefs), hints=(uniquecount,))
parses(PS, 'parse_struct_update', result=False, ensures=ended, con=dict(uref_alloc=alloc('uref', 'parent')))
parses(PS, 'parse_struct_search', result=False, ensures=ended, hints=(lambda e, st, p, *v: lambda cut: [('separated', lambda t, ix: termsep(e, t, p))],), con=dict(parse_config_search_terms=c_terms, parse_config_search_params=stmt))
parses(PS, 'parse_struct_roles', result=False, ensures=ended, con=dict(names, rolemap_assign=checks))
parses(PS, 'parse_struct_comment', result=False, ensures=ended)
parses(PS, 'parse_struct_insert', result=False, ensures=lambda e, s0, s, r, p, x: ended(e, s0, s, r, p) + [('one insert at most', z3.Or(stop(e, s, p), e.rd(s0, ('strct', 'ins'), x) == 0))])
parses(PS, 'parse_struct_data', result=False, ensures=lambda e, s0, s, r, p, x: ended(e, s0, s, r, p) + [('some field', z3.Or(stop(e, s, p), e.rd(s, ('len', 'fieldq'), e.off(s, 'strct', 'fq', x)) > 0))], con=dict(parse_field=stmt, **dict(('parse_struct_' + x, stmt) for x in ('comment', 'search', 'update', 'insert', 'unique', 'roles'))))
parses(PS, 'parse_struct_post', result=False, requires=lambda e, st, p, s: [every_of(e, st, 'updateq', e.off(st, 'strct', 'uq', s), lambda u: e.rd(st, ('update', 'type'), u) == D(e, [], []).const('UP_MODIFY'))])
parses(PS, 'parse_struct', result=False, con=dict(parse_struct_data=stmt, parse_struct_post=sub, strct_alloc=alloc('strct', 'cfg')))
parses(PRO, 'role_alloc', result=False)
parses(PRO, 'parse_role', result=False, ensures=ended, con=dict(role_alloc=alloc('role', None), parse_check_rolename=anyflag, parse_role=further(stmt)))
parses(PRO, 'parse_roles', result=False, ensures=ended, con=dict(role_alloc=alloc('role', None), parse_role=stmt))
parses(PP, 'parse_root', result=False, con=dict(parse_roles=sub, parse_struct=sub, parse_enum=sub, parse_bitfield=sub))
parses(PE, 'parse_enum', result=False, con=dict(parse_enum_data=sub))
