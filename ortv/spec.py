"""Specification oracle and trace comparison.

A specification is a Python function over an oracle `d`.  `d.c(cond)` decides a
condition of the input (forking the proof when both answers are possible), the
emit calls build the output the contract demands.  `check_emit` proves that on
every path of the real function the emitted trace equals the demanded one."""
import z3, time, re
import engine as E
from engine import *

BLANKS = re.compile(r'\s+')
CMT = re.compile(r'/\*.*?\*/', re.S)
class Mismatch(Exception):
    pass
class Structure(Exception):
    """the code and the contract do not line up: not decided by this proof"""

class D(object):
    def __init__(s, eng, pc, prefix):
        s.eng, s.pc, s.prefix, s.pos = eng, list(pc), prefix, 0
        s.pending = []
        s.out = []
        s.s0 = St(); s.s0.gh = {'brk': z3.Int('brk0')}
        s.declared = []       # entry facts plus what the specification decided
        s.phase = 'spec'
    # --------------------------------------------------------- deciding
    def prove(s, g, tmo=8000):
        if isinstance(g, bool): return g
        g = z3.simplify(g)
        if z3.is_true(g): return True
        v = s.eng.valid(s.pc + s.s0.pc, g, tmo)[0]
        if v is None: s.eng.weak = True
        return v is True
    def c(s, g):
        if isinstance(g, bool): return g
        g = z3.simplify(g)
        if z3.is_true(g): return True
        if z3.is_false(g): return False
        if s.pos < len(s.prefix):
            b = s.prefix[s.pos]
        else:
            cs = s.pc + s.s0.pc
            if s.eng.check(cs + [z3.Not(g)], 2500)[0] == z3.unsat: b = True; s.prefix.append((True, True))
            elif s.eng.check(cs + [g], 2500)[0] == z3.unsat: b = False; s.prefix.append((False, True))
            else: b = True; s.prefix.append((True, False))
            b = s.prefix[s.pos]
        s.pos += 1
        s.pc.append(g if b[0] else z3.Not(g))
        if s.phase == 'spec': s.declared.append(s.pc[-1])
        return b[0]
    def case(s, v, consts):
        """which constant a term equals"""
        for k in consts:
            if s.c(v == k): return k
        return None
    # --------------------------------------------------------- reading
    def rd(s, base, rec, fld):
        ty = s.eng.prog.structure[rec][fld]
        if recof(ty): return s.eng.off(s.s0, rec, fld, base)
        v = s.eng.rd(s.s0, (rec, fld), base, ty)
        s.eng.typefact(s.s0, ty, v)
        return v
    def flag(s, base, rec, fld, *names):
        m = 0
        for n in names: m |= s.const(n)
        v = s.rd(base, rec, fld)
        return (v & m) != 0
    def const(s, n):
        if isinstance(n, int): return n
        if n in s.eng.prog.enums: return s.eng.prog.enums[n]
        return s.eng.macros[n]
    def enumv(s, base, rec, fld): return s.rd(base, rec, fld)
    def is_(s, base, rec, fld, name):
        v = s.rd(base, rec, fld)
        return v == s.const(name)
    def streq(s, addr, text): return s.eng.content(addr) == s.eng.cid(text)
    def len(s, R, h): return s.eng.qlen(s.s0, h, R)
    def at(s, R, h, i): return s.eng.qat(s.s0, h, i, R)
    # quantified conditions over a list
    def exists(s, R, h, pred, tag=''):
        j = fresh('ix', I)
        e = s.at(R, h, j)
        n = len(s.s0.pc)
        b = pred(e)
        b = s.closefacts(n, j, b)
        return z3.Exists([j], z3.And(j >= 0, j < s.len(R, h), b), patterns=[e])
    def closefacts(s, n, j, b):
        # facts about the bound element cannot leak into the path condition
        s.s0.pc[n:] = [f for f in s.s0.pc[n:] if not mentions(f, j)]
        return b
    def forall(s, R, h, pred):
        return z3.Not(s.exists(R, h, lambda e: z3.Not(pred(e))))
    def first(s, R, h, pred):
        """first element satisfying pred, or None"""
        w = fresh('ix', I)
        if not s.c(s.exists(R, h, pred)): return None
        e = s.at(R, h, w)
        j = fresh('ix', I)
        ej = s.at(R, h, j)
        n = len(s.s0.pc)
        b = s.closefacts(n, j, pred(ej))
        fs = [w >= 0, w < s.len(R, h), pred(e), e != 0,
                 z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w), z3.Not(b)), patterns=[ej])]
        s.pc += fs; s.declared += fs
        return e
    # --------------------------------------------------------- emitting
    def lit(s, t): s.out.append(('lit', t))
    def str(s, t): s.out.append(('str', t))
    def num(s, conv, t):
        if isinstance(t, int): s.lit('%d' % t); return
        if t is not None and z3.is_int(t): t = n2b(t, 64)
        s.out.append(('int', conv, t))
    def choose(s, v, table):
        """the text of the table entry v equals"""
        t = z3.IntVal(0)
        for n, x in reversed(table): t = z3.If(v == s.const(n), s.eng.lit(x) if isinstance(x, str) else x, t)
        return t
    def fmt(s, f, *a):
        """printf-like: %s %d %zu %u with terms"""
        i = 0; k = 0
        import re
        for m in re.finditer(r'%(s|d|zu|u|%)', f):
            if m.start() > i: s.lit(f[i:m.start()])
            i = m.end()
            if m.group(1) == '%': s.lit('%'); continue
            x = a[k]; k += 1
            if m.group(1) == 's':
                if isinstance(x, str): s.lit(x)
                else: s.str(x)
            else: s.num(m.group(1)[-1], x)
        if i < len(f): s.lit(f[i:])
    def when(s, g, fn, els=None):
        """conditional output without deciding the condition"""
        if isinstance(g, bool): g = z3.BoolVal(g)
        g = z3.simplify(g)
        old, s.out = s.out, []
        n = len(s.s0.pc)
        fn(s); a, s.out = s.out, []
        if els: els(s)
        b, s.out = s.out, old
        s.out.append(('cond', g, a, b))
    def each(s, R, h, body): s.out.append(('each', R, h, body))
    def walk(s, p0, body):
        """visit the characters from p0 up to the terminator: body(d, p, c) emits
        and returns the next position"""
        s.out.append(('walk', p0, body))
    def chain(s, p0, stop, step, body):
        """visit p0, step(d, p0), ... until stop(d, p): body(d, p) emits"""
        s.out.append(('chain', p0, stop, step, body))
    def times(s, n, body):
        """body(d, i) for i = 0 .. n-1 (machine numbers)"""
        s.out.append(('times', n, body))
    def chr(s, c): s.out.append(('chr', c))
    def alt(s, *fns):
        """either output will do"""
        alts = []
        for fn in fns:
            old, s.out = s.out, []
            fn(s); alts.append(s.out); s.out = old
        s.out.append(('alt', alts))
    def any(s): s.out.append(('any',))
    def raw(s, conv, t): s.out.append(('fmt', conv, t))
    def char(s, p, st=None):
        return z3.Select(s.eng.harr(st or s.s0, ('mem', 'B8'), 'char'), p)
    def call(s, name, *args): s.out.append(('call', name, args))
    def push(s, R, h, *fields): s.out.append(('push', R, h, fields))

def mentions(f, x):
    import loops
    return loops.has(f, x)

def explore(eng, pc, fn, limit=400):
    """run fn(d) over all feasible decisions"""
    prefix = []
    n = 0
    while True:
        n += 1
        if n > limit: raise Unsupported('specification forks too often')
        d = D(eng, pc, prefix)
        yield d, fn
        # backtrack
        prefix = list(d.prefix)
        while prefix and (prefix[-1][1] or not prefix[-1][0]): prefix.pop()
        if not prefix: return
        prefix[-1] = (False, True)

def norm(d, items, split=True):
    """expand formatted strings and conditionals; merge literals"""
    out = []
    ws = getattr(d.eng, 'ws', False)      # contracts of program text speak of its tokens, not its layout
    def add(it):
        k = it[0]
        if k == 'lit':
            if ws == 'sp': it = ('lit', BLANKS.sub(' ', it[1]))      # layout: how much space, not whether
            elif ws: it = ('lit', ''.join(CMT.sub('', it[1]).split()))      # layout and comments
            if not it[1]: return
            if out and out[-1][0] == 'lit': out[-1] = ('lit', out[-1][1] + (it[1][1:] if ws == 'sp' and out[-1][1][-1] == ' ' and it[1][0] == ' ' else it[1]))
            else: out.append(it)
        elif k == 'str':
            a = it[1]
            if z3.is_expr(a):
                if z3.is_app_of(a, z3.Z3_OP_ITE) and split:
                    add(('str', a.arg(1) if d.c(a.arg(0)) else a.arg(2))); return
                if z3.is_int_value(a) and a.as_long() in d.eng.littext: add(('lit', d.eng.littext[a.as_long()])); return
                if a.get_id() in d.eng.strform:
                    for x in d.eng.strform[a.get_id()][1]: add(x)
                    return
            out.append(it)
        elif k == 'int':
            t = it[2]
            if t is not None and z3.is_expr(t):
                t = z3.simplify(t)
                if z3.is_app_of(t, z3.Z3_OP_ITE):
                    add(('int', it[1], t.arg(1) if d.c(t.arg(0)) else t.arg(2))); return
                if z3.is_bv_value(t):
                    v = t.as_signed_long() if it[1][-1] in 'di' else t.as_long()
                    if it[1][-1] in 'diu': add(('lit', '%d' % v)); return
            out.append(it)
        elif k == 'chr':
            t = z3.simplify(it[1])
            if z3.is_bv_value(t): add(('lit', chr(t.as_long() & 255))); return
            out.append(it)
        elif k == 'cond' and ws:
            if z3.is_true(it[1]) or z3.is_false(it[1]):
                for x in it[2 if z3.is_true(it[1]) else 3]: add(x)
                return
            a, b = norm(d, it[2], False), norm(d, it[3], False)
            if a or b: out.append(('cond', it[1], a, b))
        elif k == 'cond':
            if z3.is_true(it[1]):
                for x in it[2]: add(x)
            elif z3.is_false(it[1]):
                for x in it[3]: add(x)
            elif it[2] or it[3]: out.append(it)
        elif k == 'loop':
            if all(not (norm(d, p[1], False) if ws else p[1]) for p in it[1].paths): return
            out.append(it)
        else: out.append(it)
    for it in items: add(it)
    return out

def show(it):
    if it[0] == 'lit': return repr(it[1])
    if it[0] == 'loop': return 'loop(line %s)' % it[1].node.line
    if it[0] == 'each': return 'each(%s %s)' % (it[1], it[2])
    if it[0] == 'cond': return 'cond(%s: %s; %s)' % (str(it[1])[:80], [show(x) for x in it[2]], [show(x) for x in it[3]])
    return str(it)[:160]

def hasite(items):
    return any(it[0] == 'str' and z3.is_expr(it[1]) and z3.is_app_of(it[1], z3.Z3_OP_ITE) for it in items)

def compare(d, actual, want, ctx):
    d.phase = 'compare'
    return compare1(d, norm(d, actual, False), norm(d, want, False), ctx)
def isite(it): return it[0] == 'str' and z3.is_expr(it[1]) and z3.is_app_of(it[1], z3.Z3_OP_ITE)

def compare1(d, actual, want, ctx):
    i = j = 0
    a_rest = w_rest = None
    def bad(msg):
        raise Mismatch('%s: %s' % (ctx, msg))
    A = list(actual); W = list(want)
    while A or W:
        if W and W[0][0] == 'each' and A and A[0][0] == 'loop' and A[0][1].kind == 'list' and not (A[0][1].R == W[0][1] and d.prove(A[0][1].h == W[0][2])):
            # a loop over another list: this one may have nothing to say
            _, R, h, body = W[0]
            if d.prove(d.len(R, h) == 0) or each_empty(d, R, h, body): W.pop(0); continue
        if W and W[0][0] == 'each' and not (A and A[0][0] == 'loop'):
            # an iteration that emits nothing, or an empty list
            _, R, h, body = W[0]
            if d.prove(d.len(R, h) == 0): W.pop(0); continue
            if A and A[0][0] == 'cond': A[:1] = norm(d, A[0][2] if d.c(A[0][1]) else A[0][3], False); A = norm(d, A, False); continue
            if each_empty(d, R, h, body): W.pop(0); continue
            raise Structure('%s: contract iterates over %s, code emits %s' % (ctx, h, show(A[0]) if A else 'nothing'))
        if not A:
            if W[0][0] == 'times' and d.prove(W[0][1] == 0): W.pop(0); continue
            if W[0][0] == 'cond': W[:1] = norm(d, W[0][2] if d.c(W[0][1]) else W[0][3], False); continue
            bad('code emits nothing where %s is required' % show(W[0]))
        if not W:
            if A[0][0] == 'cond': A[:1] = norm(d, A[0][2] if d.c(A[0][1]) else A[0][3], False); continue
            if A[0][0] == 'loop':
                if loop_empty(d, A[0][1]): A.pop(0); continue
                raise Structure('%s: code loops where the contract ends' % ctx)
            bad('code emits %s beyond the contract' % show(A[0]))
        a, w = A[0], W[0]
        if w[0] == 'alt':
            if a[0] == 'cond': A[:1] = norm(d, a[2] if d.c(a[1]) else a[3], False); A = norm(d, A, False); continue
            n, k, pos, pre = len(d.pc), len(d.s0.pc), d.pos, list(d.prefix)
            for x in w[1][:-1]:
                try: return compare1(d, A, norm(d, x + W[1:], False), ctx)
                except (Mismatch, Structure): d.pc[n:] = []; d.pos = pos; d.prefix[:] = pre
            W = norm(d, w[1][-1] + W[1:], False); continue
        if pushlike(a) and pushlike(w):
            n = 0
            while n < len(A) and pushlike(A[n]): n += 1
            m = 0
            while m < len(W) and pushlike(W[m]): m += 1
            if any(x[0] == 'cond' for x in A[:n] + W[:m]):
                ra, rw = gpushes(d, A[:n], W[:m])
                # decide the condition of one that found no partner
                for X in (ra, rw):
                    for x in X:
                        if not z3.is_true(z3.simplify(x[0])): x[0] = z3.BoolVal(d.c(x[0])); break
                    else: continue
                    break
                back = lambda X: [it if z3.is_true(z3.simplify(g)) else ('cond', g, [it], []) for g, it in X if not z3.is_false(z3.simplify(g))]
                A[:n] = back(ra); W[:m] = back(rw)
                continue
        if a[0] == 'cond' and w[0] == 'cond' and cmp_cond(d, a, w, ctx):
            A.pop(0); W.pop(0); continue
        if a[0] == 'cond' or w[0] == 'cond':
            if a[0] == 'cond': A[:1] = norm(d, a[2] if d.c(a[1]) else a[3], False)
            if w[0] == 'cond': W[:1] = norm(d, w[2] if d.c(w[1]) else w[3], False)
            # literals may have become adjacent
            A, W = norm(d, A, False), norm(d, W, False)
            continue
        if a[0] == 'loop' and w[0] == 'walk':
            cmp_walk(d, a[1], w, ctx)
            A.pop(0); W.pop(0); continue
        if a[0] == 'loop' and w[0] == 'chain':
            cmp_chain(d, a[1], w, ctx)
            A.pop(0); W.pop(0); continue
        if w[0] == 'times':
            if d.prove(w[1] == 0) and not (a[0] == 'loop' and a[1].kind is None): W.pop(0); continue
            if a[0] != 'loop': raise Structure('%s: contract counts, code emits %s' % (ctx, show(a)))
            cmp_times(d, a[1], w, ctx)
            A.pop(0); W.pop(0); continue
        if a[0] == 'loop' and w[0] != 'each':
            if loop_empty(d, a[1]): A.pop(0); continue
            raise Structure('%s: code loops at line %s where the contract has %s' % (ctx, a[1].node.line, show(w)))
        if a[0] == 'loop':
            cmp_loop(d, a[1], w, ctx)
            A.pop(0); W.pop(0); continue
        if (isite(a) or isite(w)) and w[0] != 'any':
            # conditional strings: equal as they are, or decided
            if a[0] == w[0] and (a[1].eq(w[1]) or d.prove(d.eng.content(a[1]) == d.eng.content(w[1]))): A.pop(0); W.pop(0); continue
            X = A if isite(a) else W
            t = X[0][1]
            X[:1] = norm(d, [('str', t.arg(1) if d.c(t.arg(0)) else t.arg(2))], False)
            A, W = norm(d, A, False), norm(d, W, False)
            continue
        if a[0] == 'lit' and w[0] == 'lit':
            n = min(len(a[1]), len(w[1]))
            if a[1][:n] != w[1][:n]:
                k = [x for x in range(n) if a[1][x] != w[1][x]][0]
                bad('code emits %r, contract requires %r' % (a[1][max(0, k - 20):k + 40], w[1][max(0, k - 20):k + 40]))
            A.pop(0); W.pop(0)
            if len(a[1]) > n: A.insert(0, ('lit', a[1][n:]))
            if len(w[1]) > n: W.insert(0, ('lit', w[1][n:]))
            continue
        if a[0] == 'push' and w[0] == 'push':
            # consecutive appends: the contract does not order them
            n = 0
            while n < len(A) and A[n][0] == 'push': n += 1
            m = 0
            while m < len(W) and W[m][0] == 'push': m += 1
            pushes(d, A[:n], W[:m], bad)
            del A[:n]; del W[:m]
            continue
        # one character against a literal
        if a[0] == 'chr' and w[0] == 'lit':
            if not d.prove(z3.Extract(7, 0, a[1]) == ord(w[1][0])): bad('character %s, contract requires %r' % (a[1], w[1]))
            A.pop(0); W.pop(0)
            if w[1][1:]: W.insert(0, ('lit', w[1][1:]))
            continue
        if a[0] == 'lit' and w[0] == 'chr':
            if not d.prove(z3.Extract(7, 0, w[1]) == ord(a[1][0])): bad('code emits %r, contract requires character %s' % (a[1], w[1]))
            A.pop(0); W.pop(0)
            if a[1][1:]: A.insert(0, ('lit', a[1][1:]))
            continue
        if w[0] == 'any' and a[0] == 'lit' and len(W) > 1 and W[1][0] == 'lit' and W[1][1] in a[1]:
            A[0] = ('lit', a[1][a[1].index(W[1][1]):]); W.pop(0); continue
        if w[0] == 'any' and a[0] in ('str', 'int', 'chr', 'fmt'):
            A.pop(0); W.pop(0); continue
        if a[0] != w[0]: bad('code emits %s, contract requires %s' % (show(a), show(w)))
        if a[0] == 'str':
            if not (a[1].eq(w[1]) or d.prove(a[1] == w[1]) or d.prove(d.eng.content(a[1]) == d.eng.content(w[1]))):
                bad('string %s differs from required %s' % (a[1], w[1]))
        elif a[0] == 'int':
            if w[2] is not None:
                x, y = a[2], w[2]
                if x.size() != y.size():
                    m = max(x.size(), y.size())
                    x = z3.SignExt(m - x.size(), x) if a[1][-1] in 'di' else z3.ZeroExt(m - x.size(), x)
                    y = z3.SignExt(m - y.size(), y) if w[1][-1] in 'di' else z3.ZeroExt(m - y.size(), y)
                if not d.prove(x == y): bad('number %s differs from required %s' % (a[2], w[2]))
                if (a[1][-1] in 'di') != (w[1][-1] in 'di') and not d.prove(x >= 0): bad('signedness of %s' % (a[2],))
        elif a[0] == 'call':
            if a[1] != w[1] or len(a[2]) != len(w[2]): bad('call of %s, contract requires %s' % (a[1], w[1]))
            for x, y in zip(a[2], w[2]):
                if y is None: continue
                if isinstance(y, str): y = d.eng.lit(y)
                if isinstance(y, int): y = z3.IntVal(y) if z3.is_expr(x) and z3.is_int(x) else z3.BitVecVal(y, x.size())
                if not same_arg(d, x, y): bad('argument of %s: %s, contract requires %s' % (a[1], x, y))
        elif a[0] == 'chr':
            if not d.prove(z3.Extract(7, 0, a[1]) == z3.Extract(7, 0, w[1])): bad('character %s, contract requires %s' % (a[1], w[1]))
        elif a[0] == 'fmt':
            if a[1] != w[1] or not (a[2].eq(w[2]) or d.prove(a[2] == w[2])): bad('code prints %s of %s, contract requires %s of %s' % (a[1], a[2], w[1], w[2]))
        else:
            raise Structure('cannot compare %s' % (a[0],))
        A.pop(0); W.pop(0)

def pushlike(it):
    return it[0] == 'push' or (it[0] == 'cond' and (it[2] or it[3]) and all(pushlike(x) for x in it[2] + it[3]))
def guarded(items, g, out):
    for it in items:
        if it[0] == 'push': out.append((z3.BoolVal(True) if not g else z3.And(*g) if len(g) > 1 else g[0], it))
        else: guarded(it[2], g + [it[1]], out); guarded(it[3], g + [z3.Not(it[1])], out)
    return out
def gpushes(d, A, W):
    """conditional appends, in any order: the same ones under the same conditions;
    returns those without a partner"""
    A, W = guarded(A, [], []), guarded(W, [], [])
    rd = finalrd(d)
    cand = list(A); rest = []
    for gw, w in W:
        for x in cand:
            ga, a = x
            if a[1] != w[1] or not d.prove(ga == gw): continue
            n = len(d.pc)
            d.pc.append(gw)
            ok = d.prove(a[2] == w[2]) and all(d.prove(f(rd, a[3])) for f in w[3])
            del d.pc[n:]
            if ok: cand.remove(x); break
        else: rest.append([gw, w])
    return [list(x) for x in cand], rest

def cmp_cond(d, a, w, ctx):
    """two conditionals: same condition, same output on either side"""
    for wa, wb, g in ((w[2], w[3], w[1]), (w[3], w[2], z3.Not(w[1]))):
        if bool(a[2]) != bool(wa) or bool(a[3]) != bool(wb): continue
        if not d.prove(a[1] == g): continue
        n, k, pos, pre = len(d.pc), len(d.s0.pc), d.pos, list(d.prefix)
        try:
            d.pc.append(a[1]); compare(d, a[2], wa, ctx); d.pc[n:] = [z3.Not(a[1])]; compare(d, a[3], wb, ctx); d.pc[n:] = []
            return True
        except (Mismatch, Structure): d.pc[n:] = []; d.pos = pos; d.prefix[:] = pre
    return False

def finalrd(d):
    st = d.final
    return lambda rec, fld, b: d.eng.off(st, rec, fld, b) if recof(d.eng.prog.structure[rec][fld]) else d.eng.rd(st, (rec, fld), b, d.eng.prog.structure[rec][fld])

def pushes(d, A, W, bad):
    rest = list(A)
    rd = finalrd(d)
    for w in W:
        for a in rest:
            if a[1] == w[1] and d.prove(a[2] == w[2]) and all(d.prove(f(rd, a[3])) for f in w[3]):
                rest.remove(a); break
        else: bad('no appended element is the required %s (%d appended)' % ([str(z3.simplify(f(rd, z3.Int('new'))))[:120] for f in w[3]], len(A)))
    if rest: bad('%d more elements appended than required' % len(rest))

def same_arg(d, x, y):
    if isinstance(x, (LocalAddr, FieldAddr, MemAddr)) or isinstance(y, (LocalAddr, FieldAddr, MemAddr)):
        return True
    if x is y or x.eq(y): return True
    if x.sort() != y.sort(): return False
    # formatted strings compare by structure
    fx, fy = d.eng.strform.get(x.get_id()), getattr(d, 'forms', {}).get(y.get_id()) or d.eng.strform.get(y.get_id())
    if fx is not None and fy is not None:
        try: compare(d, fx[1], fy[1], 'string'); return True
        except Mismatch: return False
    if d.prove(x == y): return True
    if z3.is_int(x): return d.prove(d.eng.content(x) == d.eng.content(y))
    return False

def each_empty(d, R, h, body):
    ix = fresh('ix', I)
    e = d.at(R, h, ix)
    base = d.pc + d.s0.pc + [ix >= 0, ix < d.len(R, h), e != 0]
    ok = True
    for d2, _ in explore(d.eng, base, None):
        body(d2, e, ix)
        if norm(d2, d2.out): 
            if d2.eng.check(d2.pc + d2.s0.pc, 2000)[0] != z3.unsat: ok = False
    return ok

def loop_empty(d, L):
    """no iteration emits anything (what is known of the last iteration is not known of any)"""
    import loops
    n = loops.num(L.ix)
    def older(c):
        k = {}
        loops.consts_of(c, k, set())
        return all(loops.num(x) < n for x in k.values())
    before = [c for c in d.pc if older(c)]
    for conds, items, t in L.paths:
        if norm(d, items, False) and d.eng.check(t.pc + before, 2000)[0] != z3.unsat: return False
    return True

def cmp_walk(d, L, w, ctx):
    _, p0, body = w
    ks = [k for k, v in L.head.env.items() if z3.is_expr(v) and z3.is_int(v) and k in L.st0.env and z3.is_expr(L.st0.env[k])
          and z3.is_int(L.st0.env[k]) and not v.eq(L.st0.env[k]) and d.prove(L.st0.env[k] == p0)]
    if len(ks) != 1: raise Structure('%s: loop at line %s has no single character position' % (ctx, L.node.line))
    k = ks[0]
    p = L.head.env[k]
    if not d.prove(d.char(p, L.head) == 0): raise Mismatch('%s: loop at line %s can stop before the end of the string' % (ctx, L.node.line))
    for conds, items, t in L.paths:
        for d2, _ in explore(d.eng, t.pc + d.declared, None):
            d2.final = t; d2.declared = list(d.declared)
            c = d2.char(p, L.head)
            nx = body(d2, p, c)
            try:
                if not d2.prove(c != 0): raise Mismatch('%s: loop at line %s passes the end of the string' % (ctx, L.node.line))
                compare(d2, items, d2.out, '%s/loop@%s' % (ctx, L.node.line))
                if not d2.prove(nx(t.env[k]) if callable(nx) else t.env[k] == nx): raise Mismatch('%s: loop at line %s continues at %s, contract requires %s' % (ctx, L.node.line, t.env[k], nx))
            except (Mismatch, Structure):
                if d2.eng.check(d2.pc + d2.s0.pc, 8000)[0] == z3.unsat: continue
                raise

def cmp_chain(d, L, w, ctx):
    """a loop following a pointer field"""
    _, p0, stop, step, body = w
    ks = [k for k, v in L.head.env.items() if z3.is_expr(v) and z3.is_int(v) and k in L.st0.env and z3.is_expr(L.st0.env[k])
          and z3.is_int(L.st0.env[k]) and not v.eq(L.st0.env[k]) and d.prove(L.st0.env[k] == p0)]
    if len(ks) != 1: raise Structure('%s: loop at line %s follows no single pointer' % (ctx, L.node.line))
    k = ks[0]
    p = L.head.env[k]
    if not d.prove(stop(d, p)): raise Mismatch('%s: loop at line %s can stop early' % (ctx, L.node.line))
    for conds, items, t in L.paths:
        for d2, _ in explore(d.eng, t.pc + d.declared, None):
            d2.final = t; d2.declared = list(d.declared)
            body(d2, p)
            try:
                if not d2.prove(z3.Not(stop(d2, p))): raise Mismatch('%s: loop at line %s can run too often' % (ctx, L.node.line))
                compare(d2, items, d2.out, '%s/loop@%s' % (ctx, L.node.line))
                if not d2.prove(t.env[k] == step(d2, p)): raise Mismatch('%s: loop at line %s continues elsewhere' % (ctx, L.node.line))
            except (Mismatch, Structure):
                if d2.eng.check(d2.pc + d2.s0.pc, 8000)[0] == z3.unsat: continue
                raise

def cmp_times(d, L, w, ctx):
    """a loop counting from zero to the required number in steps of one"""
    _, n, body = w
    ks = [k for k, v in L.head.env.items() if z3.is_expr(v) and z3.is_bv(v) and v.size() == n.size() and k in L.st0.env and z3.is_expr(L.st0.env[k])
          and z3.is_bv(L.st0.env[k]) and not v.eq(L.st0.env[k]) and d.prove(L.st0.env[k] == 0)
          and all(t.env[k] is not v and d.eng.valid(t.pc, t.env[k] == v + 1, 4000)[0] is True for c, i, t in L.paths)]
    if len(ks) != 1: raise Structure('%s: loop at line %s has no single counter' % (ctx, L.node.line))
    i = L.head.env[ks[0]]
    if not d.prove(z3.Not(z3.ULT(i, n))): raise Mismatch('%s: loop at line %s can stop early' % (ctx, L.node.line))
    for conds, items, t in L.paths:
        for d2, _ in explore(d.eng, t.pc + d.declared, None):
            d2.final = t; d2.declared = list(d.declared)
            body(d2, i)
            try:
                if not d2.prove(z3.ULT(i, n)): raise Mismatch('%s: loop at line %s runs too often' % (ctx, L.node.line))
                compare(d2, items, d2.out, '%s/loop@%s' % (ctx, L.node.line))
            except (Mismatch, Structure):
                if d2.eng.check(d2.pc + d2.s0.pc, 8000)[0] == z3.unsat: continue
                raise

def cmp_loop(d, L, w, ctx):
    _, R, h, body = w
    if L.kind != 'list' or L.R != R: raise Structure('%s: loop at line %s does not walk a %s' % (ctx, L.node.line, R))
    if not d.prove(L.h == h): raise Mismatch('%s: loop at line %s walks %s, contract requires %s' % (ctx, L.node.line, L.h, h))
    # completed: every element was visited
    if not d.prove(L.ix == d.len(R, h)): raise Mismatch('%s: loop at line %s can stop early' % (ctx, L.node.line))
    if not L.paths: 
        return
    for conds, items, t in L.paths:
        base = t.pc + d.pc
        for d2, _ in explore(d.eng, t.pc + d.declared, None):
            d2.final = t; d2.declared = list(d.declared)
            e = d2.at(R, h, L.ix)
            body(d2, e, L.ix)
            try: compare(d2, items, d2.out, '%s/loop@%s' % (ctx, L.node.line))
            except (Mismatch, Structure):
                if d2.eng.check(d2.pc + d2.s0.pc, 8000)[0] == z3.unsat: continue
                raise

def check_emit(eng, fname, file, spec, requires=None, args=None, retok=None, ctx=None):
    """prove: on every path the trace equals spec and the result is success"""
    fd, vals, st = eng.start(fname, file, args)
    names = [p.a.get('name', '_') for p in fd.params]
    d0 = D(eng, [], [])
    pre = requires(d0, *vals) if requires else []
    st.pc += list(d0.s0.pc) + list(pre)
    declared = list(st.pc)
    res = eng.runfn(fd, vals, st)
    n = 0
    for v, t in res:
        if not eng.feasible(t): continue
        for d, _ in explore(eng, t.pc, None):
            d.final = t; d.declared = list(declared)
            r = spec(d, *vals)
            t0 = time.time()
            try:
                compare(d, t.tr.items(), d.out, fname)
                ok, info = True, ''
                if retok is not None:
                    g = retok(d, v, r)
                    if not d.prove(g): ok, info = False, 'result %s' % v
            except Mismatch as m:
                if eng.check(d.pc + d.s0.pc, 8000)[0] == z3.unsat: ok, info = True, 'vacuous'
                else: ok, info = False, str(m)
            except Structure as m:
                if eng.check(d.pc + d.s0.pc, 8000)[0] == z3.unsat: ok, info = True, 'vacuous'
                else: raise Unsupported(str(m))
            n += 1
            eng.obl.append({'fn': fname, 'name': 'output equals contract', 'ok': ok, 'res': 'unsat' if ok else 'failed', 't': time.time() - t0, 'info': info, 'line': None})
            if not ok: return res
    # vacuity: the precondition and some path must be satisfiable
    r = eng.check(declared, 4000)[0]
    if r == z3.unsat or n == 0:
        eng.obl.append({'fn': fname, 'name': 'vacuity', 'ok': False, 'res': str(r), 't': 0, 'info': 'no feasible path', 'line': None})
    return res

def emits(name):
    """call-site contract of a printing function: it emits its own contracted output"""
    def f(eng, st, args, n):
        res = []
        if eng.io == 'fork':
            t = either(st); t.gh['ioerr'] = z3.BoolVal(True)
            res.append((z3.BitVecVal(0, 32), t))
        st.emit(('call', name, tuple(args)))
        res.append((z3.BitVecVal(1, 32), st))
        return res
    return f
