import z3
import engine, spec
from engine import *
from spec import *
from proofs import proof

def ok(d, v, r): return v != 0

def form(d, f, *a):
    """a formatted string argument"""
    d2 = D(d.eng, [], []); d2.s0 = d.s0
    d2.fmt(f, *a)
    v = fresh('form', I); d.eng.strform[v.get_id()] = (v, d2.out)
    if d.eng.forms:
        import libc
        libc.formfact(d.eng, d.s0, v, norm(d2, d2.out))
    return v

def emit_proof(name, file, spec, contracts=None, fn=None, functions=None, requires=None, args=None, retok=ok, **flags):
    """the output of function `fn` of `file` is exactly what `spec` says"""
    fn = fn or name
    con = dict((k, emits(k)) for k in (contracts or ()))
    @proof('%s:%s' % (file[:-2], name), file, functions or [fn], con, **flags)
    def run(mk):
        check_emit(mk(), fn, file, spec, requires=requires, args=args, retok=retok)

def nothing(eng, st, a, n):
    """contract of gen_comment and gen_commentv: writes one closed comment (P08)"""
    return [(z3.BitVecVal(1, 32), st)]
def pure(name, sort=None):
    """contract of a function without effects: some function of its arguments"""
    def f(eng, st, a, n): return [(eng.fnres(name, z3.BitVecSort(32) if sort is None else sort, *a), st)]
    return f
def code_proof(name, file, spec, contracts=None, pures=(), **flags):
    """the program text written by a function, but for its layout and comments"""
    con = dict((k, emits(k)) for k in (contracts or ()))
    con.update((k, pure(k)) for k in pures)
    con.update(gen_comment=nothing, gen_commentv=nothing)
    con.update(flags.pop('con', {}))
    fn = flags.pop('fn', None) or name
    kw = dict((k, flags.pop(k)) for k in ('requires', 'args') if k in flags)
    rk = flags.pop('retok', ok)
    @proof('%s:%s' % (file[:-2], name), file, [fn], con, ws=True, **flags)
    def run(mk):
        check_emit(mk(), fn, file, spec, retok=rk, **kw)

def before(d, R, h, i, pred):
    """some element before position i satisfies pred"""
    j = fresh('ix', I)
    e = d.at(R, h, j)
    n = len(d.s0.pc)
    b = d.closefacts(n, j, pred(e))
    return z3.Exists([j], z3.And(j >= 0, j < i, j < d.len(R, h), b), patterns=[e])

def oneof(v, *vals): return z3.Or(*[v == x for x in vals])

def quiet(eng, st, a, n):
    """assumed contract: changes nothing the contracts speak about (messages)"""
    return [(None, st)]
def some(eng, st, a, n):
    """assumed contract of a message function with a result: any result"""
    return [(fresh('msg', z3.BitVecSort(32)), st)]

def count_proof(name, file, fn, bad, args=None, **flags):
    """a counting function: its result is zero iff no element of the list is bad,
    and it never wraps"""
    @proof('%s:%s' % (file[:-2], name), file, [fn], flags.pop('contracts', {}), **dict(dict(qfeas=False), **flags))
    def run(mk):
        e = mk()
        fd, v, st = e.start(fn, file)
        res = e.runfn(fd, v, st)
        n = 0
        for val, s in res:
            if not e.feasible(s): continue
            n += 1
            d = D(e, [], [])
            ex = bad(d, *v)
            s.pc += d.s0.pc
            e.oblige(s, (val != 0) == ex, 'reports an incompatibility iff there is one')
            e.oblige(s, z3.ULT(val, 2 ** 40), 'the number of incompatibilities does not wrap')
        if not n: e.obl.append(dict(fn=fn, name='vacuity', ok=False, res='failed', t=0, info='no path', line=None))

# ---------------------------------------------------------------- invariants suggested to loops
def D_at(eng, st):
    """terms read in a given state"""
    d = D(eng, [], []); d.s0 = st.copy(); return d
def upto(j, ix, b, pat):
    """b for all j below ix; for ix + 1, the last apart"""
    if z3.is_add(ix): return z3.And(upto(j, ix.arg(0), b, pat), z3.Implies(ix.arg(0) >= 0, z3.substitute(b, (j, ix.arg(0)))))
    if z3.is_int_value(ix) and ix.as_long() == 0: return z3.BoolVal(True)
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ix), b), patterns=[pat])
def none_before(R, pred):
    """no element passed satisfies the predicate"""
    def h(cut):
        if not cut.iter or cut.iter[0] != 'list' or cut.iter[3] != R: return []
        def f(t, ix):
            d = D(cut.eng, [], [])
            j = fresh('ix', I)
            x = d.at(R, cut.iter[2], j)
            n = len(d.s0.pc)
            b = d.closefacts(n, j, pred(d, x))
            return upto(j, ix, z3.Not(b), x)
        return [('none', f)]
    return h

# ---------------------------------------------------------------- counting elements of a list
def CNT(name, R): return z3.Function('count.%s.%s' % (R, name), I, I, B64)
def count(d, name, R, h, i=None):
    """how many of the first i elements (all, if none is given) satisfy the predicate of that name"""
    return CNT(name, R)(h, d.len(R, h) if i is None else i)
def counts(R, **preds):
    """a counter equals the number of elements passed which satisfy a predicate"""
    def h(cut):
        if not cut.iter or cut.iter[0] != 'list' or cut.iter[3] != R: return []
        out = []
        def mkf(key, v0, name, pred):
            def f(t, ix):
                def val(ix):
                    if z3.is_int_value(ix) and ix.as_long() == 0: return z3.BitVecVal(0, 64)
                    if z3.is_add(ix) and ix.num_args() == 2:
                        a, b = ix.arg(0), ix.arg(1)
                        if z3.is_int_value(a): a, b = b, a
                        d = D(cut.eng, [], [])
                        return val(a) + z3.If(pred(d, d.at(R, cut.iter[2], a)), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
                    return CNT(name, R)(cut.iter[2], ix)
                return t.env[key] == v0 + val(ix)
            return f
        for vk, (v0, nv) in cut.vars.items():
            if vk[0] != 'l' or not z3.is_expr(v0) or v0.sort() != B64: continue
            for name, pred in preds.items(): out.append(('count%s%s' % (vk[1], name), mkf(vk[1], v0, name, pred)))
        return out
    return h

def firsts(R, *preds):
    """a flag is set still: no element passed satisfies the predicate (None: nothing passed)"""
    def h(cut):
        if not cut.iter or cut.iter[0] != 'list' or cut.iter[3] != R: return []
        out = []
        def mkf(key, v0, pred):
            def f(t, ix):
                if pred is None: none = ix <= 0
                else:
                    d = D(cut.eng, [], [])
                    j = fresh('ix', I)
                    x = d.at(R, cut.iter[2], j)
                    n = len(d.s0.pc)
                    b = d.closefacts(n, j, pred(d, x))
                    none = upto(j, ix, z3.Not(b), x)
                return (t.env[key] != 0) == z3.And(v0 != 0, none)
            return f
        for vk, (v0, nv) in cut.vars.items():
            if vk[0] != 'l' or not z3.is_expr(v0) or v0.sort() != z3.BitVecSort(32): continue
            for i, pred in enumerate(preds): out.append(('first%s.%d' % (vk[1], i), mkf(vk[1], v0, pred)))
        return out
    return h
