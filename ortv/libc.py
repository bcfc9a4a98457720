"""Assumed contracts of the external functions the sources call.

Each takes (eng, state, args, node) and returns [(value, state)].  They are part
of the trusted base and are reported as such."""
import re
import z3
from engine import *
import engine as E

TABLE = {}
def reg(*names):
    def f(fn):
        for n in names: TABLE[n] = fn
        return fn
    return f

STRLT = z3.Function('strcmp_less', I, I, z3.BoolSort())

def bv(v, w=32): return z3.BitVecVal(v, w)

def used(eng, name):
    eng.assumptions.add('libc contract: ' + name)

# ---------------------------------------------------------------- output
def lit_of(eng, a, st=None):
    if st is not None and z3.is_expr(a) and a.get_id() in eng.locarr:
        # a local buffer: its characters, if known
        t = ''
        for i in range(eng.locarr[a.get_id()][1]):
            arr, x = eng.harr(st, ('mem', 'B8'), 'char'), a + i
            while z3.is_store(arr):
                dx = z3.simplify(arr.arg(1) - x)
                if not z3.is_int_value(dx): return None
                if dx.as_long() == 0: break
                arr = arr.arg(0)
            else: return None
            c = z3.simplify(arr.arg(2))
            if not z3.is_bv_value(c): return None
            if c.as_long() == 0: return t
            t += chr(c.as_long())
        return None
    if z3.is_expr(a) and z3.is_int_value(a): return eng.littext.get(a.as_long())
    return None

def chunks_of(eng, st, fmt, args, node_args):
    """printf format + argument terms -> chunk list"""
    out = []
    i = 0
    ai = 0
    buf = ''
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            buf += c; i += 1; continue
        m = re.match(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t)?([diouxXcsgGeEfp%])', fmt[i:])
        if not m: raise Unsupported('format ' + fmt[i:i + 6])
        i += len(m.group(0))
        cv = m.group(5)
        if cv == '%': buf += '%'; continue
        extra = []
        for g in (m.group(2), m.group(3)):
            if g == '*': extra.append(args[ai]); ai += 1
        a = args[ai]; ai += 1
        plain = not m.group(1) and not m.group(2) and not m.group(3)
        if cv == 's' and plain:
            t = lit_of(eng, a, st)
            if t is not None: buf += t; continue
            if buf: out.append(('lit', buf)); buf = ''
            out.append(('str', a))
        elif cv in 'diuxXo' and plain:
            if buf: out.append(('lit', buf)); buf = ''
            out.append(('int', cv, z3.simplify(a) if z3.is_expr(a) else a))
        elif cv == 'c' and plain:
            if z3.is_bv_value(z3.simplify(a)):
                buf += chr(z3.simplify(a).as_long() & 255); continue
            if buf: out.append(('lit', buf)); buf = ''
            out.append(('chr', z3.simplify(a)))
        else:
            if buf: out.append(('lit', buf)); buf = ''
            out.append(('fmt', m.group(0), a) + tuple(extra))
    if buf: out.append(('lit', buf))
    return out

def outres(eng, st, items, f, okv, failv):
    res = []
    if eng.io == 'fork':
        t = either(st)
        t.gh['ioerr'] = z3.BoolVal(True)
        res.append((failv, t))
    for c in items: st.emit(c + (('file', f),) if False else c)
    res.append((okv, st))
    return res

@reg('fputs')
def fputs(eng, st, a, n):
    used(eng, 'fputs')
    t = lit_of(eng, a[0], st)
    items = [('lit', t)] if t is not None else [('str', a[0])]
    return outres(eng, st, items, a[1], bv(1), bv(-1))

@reg('fputc')
def fputc(eng, st, a, n):
    used(eng, 'fputc')
    c = z3.simplify(a[0])
    items = [('lit', chr(c.as_long() & 255))] if z3.is_bv_value(c) else [('chr', c)]
    return outres(eng, st, items, a[1], z3.ZeroExt(24, z3.Extract(7, 0, c)), bv(-1))

@reg('fprintf')
def fprintf(eng, st, a, n):
    used(eng, 'fprintf')
    fmt = lit_of(eng, a[1])
    if fmt is None: raise Unsupported('non-literal format')
    r = bv(1)
    if eng.rcs:
        r = fresh('rc', z3.BitVecSort(32)); st.pc.append(r >= 0)
    return outres(eng, st, chunks_of(eng, st, fmt, a[2:], None), a[0], r, bv(-1))

@reg('fwrite')
def fwrite(eng, st, a, n):
    raise Unsupported('fwrite')

# ---------------------------------------------------------------- memory
def sizerec(n):
    """struct type named by a sizeof in an allocation's arguments"""
    for c in n.ch[1:]:
        while c.kind in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'): c = c.ch[0]
        if c.kind == 'UnaryExprOrTypeTraitExpr':
            t = c.a.get('argType') or (c.ch[0].ty if c.ch else None)
            return t
    return None

def alloc(eng, st, zero, n, nm='obj'):
    res = []
    if eng.mem == 'fork':
        t = either(st); t.gh['memerr'] = z3.BoolVal(True)
        res.append((z3.IntVal(0), t))
    a = fresh(nm, I)
    eng.freshobj(st, a)
    if zero: eng.zeroed[a.get_id()] = a
    res.append((a, st))
    return res

@reg('calloc')
def calloc(eng, st, a, n): used(eng, 'calloc'); return alloc(eng, st, True, n)
@reg('malloc')
def malloc(eng, st, a, n): used(eng, 'malloc'); return alloc(eng, st, False, n)

@reg('reallocarray', 'recallocarray', 'realloc')
def reallocarray(eng, st, a, n):
    """modelled in place: an array only ever grows; the old block is not used again"""
    used(eng, 'reallocarray (array growth modelled in place)')
    res = []
    if eng.mem == 'fork':
        t = either(st); t.gh['memerr'] = z3.BoolVal(True)
        res.append((z3.IntVal(0), t))
    v = fresh('obj', I)
    p = a[0]
    st.add(z3.Implies(p != 0, v == p)); st.add(v != 0)
    if z3.is_int_value(p) and p.as_long() == 0:
        eng.freshobj(st, v)
    res.append((v, st))
    return res

@reg('strdup', 'strndup')
def strdup(eng, st, a, n):
    used(eng, 'strdup')
    if len(a) > 1: raise Unsupported('strndup')
    res = alloc(eng, st, False, n, 'str')
    v, t = res[-1]
    t.add(S2(v) == eng.content(a[0]))
    return res

def formfact(eng, st, v, ch):
    """the content of a formatted string is determined by those of its arguments"""
    if not all(c[0] in ('lit', 'str') for c in ch): return
    xs = [eng.content(c[1]) for c in ch if c[0] == 'str']
    f = z3.Function('form.' + ''.join(c[1] if c[0] == 'lit' else '%s' for c in ch), *([I] * len(xs) + [I]))
    st.pc.append(S2(v) == f(*xs))
    if not any(x.isupper() for c in ch if c[0] == 'lit' for x in c[1]): st.pc.append(eng.lower(S2(v)) == f(*[eng.lower(x) for x in xs]))
@reg('asprintf')
def asprintf(eng, st, a, n):
    used(eng, 'asprintf')
    fmt = lit_of(eng, a[1])
    if fmt is None: raise Unsupported('non-literal format')
    ch = chunks_of(eng, st, fmt, a[2:], None)
    res = []
    if eng.mem == 'fork':
        t = either(st); t.gh['memerr'] = z3.BoolVal(True)
        res.append((bv(-1), t))
    v = fresh('str', I)
    eng.freshobj(st, v)
    eng.strform[v.get_id()] = (v, ch)
    if eng.forms: formfact(eng, st, v, ch)
    tgt = a[0]
    if isinstance(tgt, LocalAddr): st.env[tgt.key] = v
    elif isinstance(tgt, FieldAddr): eng.store(tgt, tgt.ty, v, st)
    elif isinstance(tgt, MemAddr): eng.store(tgt, 'char *', v, st)
    else: raise Unsupported('asprintf target')
    res.append((bv(1), st))
    return res

@reg('free', 'freezero')
def free(eng, st, a, n): used(eng, 'free'); return [(None, st)]

@reg('memset')
def memset(eng, st, a, n):
    """only whole structures set to zero"""
    used(eng, 'memset')
    c = n.ch[1]
    while c.kind in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'): c = c.ch[0]
    rec = recof(pointee(c.ty or 'void'))
    if rec is None or not z3.is_bv_value(z3.simplify(a[1])) or z3.simplify(a[1]).as_long() != 0: raise Unsupported('memset')
    zerorec(eng, st, rec, hd(eng, st, a[0]))
    return [(a[0], st)]
def zerorec(eng, st, rec, b):
    for f, ty in eng.prog.structure[rec].items():
        if recof(ty):
            if f.startswith('#'): zerorec(eng, st, recof(ty), b); continue
            if 'tqh_first' in eng.prog.structure.get(recof(ty), {}): eng.wr(st, ('len', recof(ty)), eng.off(st, rec, f, b), z3.IntVal(0)); continue
            zerorec(eng, st, recof(ty), eng.off(st, rec, f, b)); continue
        if strip(ty).endswith(']'): raise Unsupported('memset of an array')
        so = sort_of(ty)
        eng.wr(st, (rec, f), b, z3.IntVal(0) if so == I else z3.fpPlusZero(FP) if so == FP else z3.BitVecVal(0, so.size()), ty)

# ---------------------------------------------------------------- strings
@reg('strcmp')
def strcmp(eng, st, a, n):
    used(eng, 'strcmp')
    return cmp_(eng, st, eng.content(a[0]), eng.content(a[1]))
def cmp_(eng, st, x, y):
    if z3.is_int_value(x) and z3.is_int_value(y):
        return [(bv(0 if x.as_long() == y.as_long() else 1), st)]
    return [(z3.If(x == y, bv(0), z3.If(STRLT(x, y), bv(-1), bv(1))), st)]
@reg('strcasecmp')
def strcasecmp(eng, st, a, n):
    used(eng, 'strcasecmp')
    return cmp_(eng, st, eng.lower(eng.content(a[0])), eng.lower(eng.content(a[1])))
@reg('strlen')
def strlen(eng, st, a, n):
    used(eng, 'strlen')
    t = lit_of(eng, a[0])
    if t is not None: return [(bv(len(t), 64), st)]
    c = eng.content(a[0])
    eng.addfact(st, z3.ULT(LEN(c), 2 ** 40))
    eng.addfact(st, (LEN(c) == 0) == (c == eng.cid('')))
    return [(LEN(c), st)]

for nm in ('isalnum', 'isalpha', 'isdigit', 'isspace', 'islower', 'isupper', 'isprint', 'iscntrl', 'isxdigit', 'isgraph', 'ispunct'):
    def mk(nm):
        def f(eng, st, a, n):
            used(eng, nm + ' in the C locale')
            c = a[0]
            def rng(lo, hi): return z3.And(c >= ord(lo), c <= ord(hi))
            up, lo, dg = rng('A', 'Z'), rng('a', 'z'), rng('0', '9')
            e = {'isalnum': z3.Or(up, lo, dg), 'isalpha': z3.Or(up, lo), 'isdigit': dg,
                 'isspace': z3.Or(c == 32, z3.And(c >= 9, c <= 13)), 'islower': lo, 'isupper': up,
                 'isprint': z3.And(c >= 32, c < 127), 'iscntrl': z3.Or(z3.And(c >= 0, c < 32), c == 127),
                 'isxdigit': z3.Or(dg, rng('a', 'f'), rng('A', 'F')), 'isgraph': z3.And(c > 32, c < 127),
                 'ispunct': z3.And(c > 32, c < 127, z3.Not(z3.Or(up, lo, dg)))}[nm]
            return [(z3.If(e, bv(1), bv(0)), st)]
        return f
    TABLE[nm] = mk(nm)
@reg('tolower')
def tolower(eng, st, a, n):
    c = a[0]; return [(z3.If(z3.And(c >= 65, c <= 90), c + 32, c), st)]
@reg('toupper')
def toupper(eng, st, a, n):
    c = a[0]; return [(z3.If(z3.And(c >= 97, c <= 122), c - 32, c), st)]

# ---------------------------------------------------------------- control
@reg('__ortv_assert')
def assert_(eng, st, a, n):
    c = z3.simplify(eng.tobool(a[0]))
    if eng.asserts: eng.oblige(st, c, 'assert at line %s' % n.line, n.line)
    else: eng.assumptions.add('assertions hold (a failed one ends the program)')
    st.add(c)
    return [(None, st)]
@reg('abort')
def abort(eng, st, a, n):
    eng.oblige(st, z3.BoolVal(False), 'abort() unreachable at line %s' % n.line, n.line)
    return []
@reg('exit', 'err', 'errx')
def exit_(eng, st, a, n): return []

# ---------------------------------------------------------------- TAILQ
def headof(n, i=1):
    c = n.ch[i]
    while c.kind in ('ImplicitCastExpr', 'ParenExpr') and recof(pointee(c.ty or 'void')) is None: c = c.ch[0]
    R = recof(pointee(c.ty))
    if R is None: raise Unsupported('queue head type')
    return R
def hd(eng, st, a):
    if isinstance(a, MemAddr): return a.addr
    if isinstance(a, (LocalAddr, FieldAddr)): return eng.aggaddr(a, st)
    return a

@reg('__ortv_tq_init')
def tq_init(eng, st, a, n):
    R = headof(n); h = hd(eng, st, a[0])
    eng.wr(st, ('len', R), h, z3.IntVal(0)); return [(None, st)]
def link(eng, st, R, h, n, i):
    Erec, lk = eng.headinfo(R, h)
    t = eng.lit_of_node(n.ch[i])
    return '%s.%s' % (Erec, t)
@reg('__ortv_tq_ins_tail')
def tq_tail(eng, st, a, n):
    used(eng, 'TAILQ_INSERT_TAIL appends to the abstract sequence')
    R = headof(n); h = hd(eng, st, a[0]); e = a[1]; lk = link(eng, st, R, h, n, 3)
    l = eng.qlen(st, h, R)
    row = eng.rd(st, ('at', R), h)
    eng.wr(st, ('at', R), h, z3.Store(row, l, e))
    eng.wr(st, ('len', R), h, z3.simplify(l + 1))
    eng.wr(st, ('own', lk), e, h); eng.wr(st, ('idx', lk), e, l)
    if R in eng.pushed:
        st.emit(('push', R, h, e))
    return [(None, st)]
@reg('__ortv_tq_ins_head', '__ortv_tq_ins_before', '__ortv_tq_ins_after', '__ortv_tq_remove', '__ortv_tq_concat')
def tq_other(eng, st, a, n):
    """only the multiset effect is left unknown: the list becomes arbitrary"""
    R = headof(n); 
    used(eng, 'other list edits leave the edited lists arbitrary')
    st.heap[('len', R)] = fresh('len', z3.ArraySort(I, I))
    st.heap[('at', R)] = fresh('at', z3.ArraySort(I, z3.ArraySort(I, I)))
    E_, lk = eng.headinfo(R, z3.IntVal(0))
    for k in list(st.heap):
        if k[0] in ('own', 'idx') and k[1].startswith(E_ + '.'):
            st.heap[k] = fresh(k[0], z3.ArraySort(I, I))
    return [(None, st)]
