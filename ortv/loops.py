"""Loop contracts: inferred inductive invariants (Houdini) with history facts.

For every loop the verifier cuts the loop at its head, havocs what the body can
modify and assumes an invariant assembled from candidates; each candidate is
proved on entry and preserved on every back edge, else dropped."""
import z3
import engine as E
from engine import *

import os
DBG = int(os.environ.get('ORTV_LOOPS', 0))

class Loop(object):
    def __init__(s):
        s.kind = None; s.h = None; s.R = None; s.ix = None; s.p0 = None
        s.paths = []      # (path condition list, [trace items], end state)
        s.headpc = []
        s.node = None
        s.st0 = None

def modified_locals(n, acc):
    """syntactic over-approximation: ids of locals assigned or whose address is taken"""
    def base(c):
        while c.kind in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr'): c = c.ch[0]
        return c
    if (n.kind == 'BinaryOperator' and n.a.get('opcode') == '=') or n.kind == 'CompoundAssignOperator' or \
       (n.kind == 'UnaryOperator' and n.a.get('opcode') in ('++', '--', '&')):
        b = base(n.ch[0])
        if b.kind == 'DeclRefExpr' and b.a['ref'][0] in ('VarDecl', 'ParmVarDecl'):
            acc.add(b.a['ref'][2])
    for c in n.ch: modified_locals(c, acc)
    return acc

def consts_of(t, acc, seen):
    if t.get_id() in seen: return
    seen.add(t.get_id())
    if z3.is_quantifier(t):
        consts_of(t.body(), acc, seen); return
    if z3.is_const(t) and not z3.is_var(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc[t.get_id()] = t
    for c in t.children(): consts_of(c, acc, seen)

def num(t):
    nm = t.decl().name()
    return int(nm.rsplit('!', 1)[1]) if '!' in nm else 0

def counter():
    return int(fresh('tick', I).decl().name().rsplit('!', 1)[1])

def conjs(c):
    if z3.is_and(c):
        for x in c.children():
            for y in conjs(x): yield y
    else: yield c

def invariant_term(t, n0, ix):
    d = {}
    consts_of(t, d, set())
    return all(num(c) <= n0 or c.eq(ix) for c in d.values())

def has(t, x):
    d = {}
    consts_of(t, d, set())
    return x.get_id() in d

def find_select(ts, v):
    """a list access at index v"""
    seen = set(); work = list(ts)
    while work:
        t = work.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): continue
        if z3.is_app_of(t, z3.Z3_OP_SELECT) and t.arg(1).eq(v): return t
        work.extend(t.children())
    return None

def unroll(eng, st, cond, inc, body, node):
    """concrete unrolling while the condition is decided"""
    if cond is None: return None
    save = len(eng.obl)
    cur = [st.copy()]
    done = []
    for it in range(eng.unroll + 1):
        nxt = []
        for t in cur:
            n0 = len(t.pc)
            r = eng.cond(cond, t)
            if len(r) > 1:
                del eng.obl[save:]
                return None
            for b, t2 in r:
                if not b: done.append(Out('fall', t2)); continue
                if it == 0 and not eng.small(cond, t2):
                    del eng.obl[save:]; return None
                nxt.append(t2)
        if not nxt: return done
        if it == eng.unroll: break
        cur = []
        for t in nxt:
            for o in eng.exec(body, t):
                if o.k in ('fall', 'continue'):
                    if inc is not None:
                        for _, t3 in eng.ev(inc, o.st): cur.append(t3)
                    else: cur.append(o.st)
                elif o.k == 'break': done.append(Out('fall', o.st))
                else: done.append(o)
        if len(cur) > eng.merge_threshold:
            cur = [o.st for o in eng.merge([Out('fall', t) for t in cur])]
        if len(cur) > 24:
            del eng.obl[save:]; return None
    del eng.obl[save:]
    return None

def run(eng, st, cond, inc, body, node):
    r = unroll(eng, st, cond, inc, body, node)
    if r is not None: return r
    return Cut(eng, st, cond, inc, body, node).run()

class Cut(object):
    def __init__(s, eng, st, cond, inc, body, node):
        s.eng, s.st0, s.cond, s.inc, s.body, s.node = eng, st, cond, inc, body, node
        s.n0 = counter()
        mods = set()
        for x in (cond, inc, body):
            if x is not None: modified_locals(x, mods)
        s.mods = set(k for k in st.env if k[0] == st.frame and k[1] in mods)
        s.hmods = set()
        s.gmods = set()
        s.emits = False
        s.cache = eng.loopcache.setdefault((id(node), eng.fn), {'dead': set(), 'h': set(), 'g': set(), 'm': set(), 'emits': False})
        s.hmods |= s.cache['h']; s.gmods |= s.cache['g']; s.emits = s.cache['emits']
        s.mods |= set(k for k in st.env if k[0] == st.frame and k[1] in s.cache['m'])
        s.bases = {}          # heap key -> written bases (None = unframed)
        s.iter = None
        # iterator
        for k in s.mods:
            v = st.env[k]
            if z3.is_expr(v) and z3.is_int(v) and v.get_id() in eng.first_terms:
                s.iter = ('list', k) + eng.first_terms[v.get_id()][1:]
        if s.iter is None:
            for k in sorted(s.mods, key=str):
                v = st.env[k]
                if z3.is_expr(v) and z3.is_int(v) and s.charwalk(k):
                    s.iter = ('char', k, v); break
        if s.iter is not None and ('it', str(s.iter[0])) in s.cache['dead']: s.iter = None
        s.chase = None
        # iterators advancing in step with the first
        s.par = []
        if s.iter is not None and s.iter[0] == 'list':
            for k in s.mods:
                v = st.env[k]
                if k != s.iter[1] and z3.is_expr(v) and z3.is_int(v) and v.get_id() in eng.first_terms and ('par', str(k)) not in s.cache['dead']:
                    s.par.append((k,) + eng.first_terms[v.get_id()][1:])

    def charwalk(s, k):
        """is local k advanced exactly by ++ in inc (for) or the body, never else assigned"""
        cnt = [0, 0]
        def walk(n):
            if n.kind == 'UnaryOperator' and n.a.get('opcode') in ('++',) :
                b = n.ch[0]
                while b.kind in ('ParenExpr',): b = b.ch[0]
                if b.kind == 'DeclRefExpr' and b.a['ref'][2] == k[1] and is_ptr(b.ty) and esize(pointee(b.ty)) == 1: cnt[0] += 1
            elif (n.kind == 'BinaryOperator' and n.a.get('opcode') == '=') or n.kind == 'CompoundAssignOperator':
                b = n.ch[0]
                while b.kind in ('ParenExpr',): b = b.ch[0]
                if b.kind == 'DeclRefExpr' and b.a['ref'][2] == k[1]: cnt[1] += 1
            for c in n.ch: walk(c)
        for x in (s.cond, s.inc, s.body):
            if x is not None: walk(x)
        return cnt[0] >= 1 and cnt[1] == 0

    # ------------------------------------------------------------------
    def head(s, facts):
        """havoc'd loop-head states; facts(self) -> list of assumed formulas"""
        eng = s.eng
        t = s.st0.copy()
        ix = fresh('ix', I)
        s.ix = ix
        t.pc.append(ix >= 0)
        # the index as a machine number: lists and strings are shorter than 2^40
        s.bix = fresh('bix', z3.BitVecSort(64))
        t.pc.append(z3.ULT(s.bix, 2 ** 40))
        s.vars = {}
        for k in sorted(s.mods, key=str):
            v0 = s.st0.env[k]
            if s.iter is not None and k == s.iter[1]: continue
            if any(k == p[0] for p in s.par): continue
            if not z3.is_expr(v0):
                if v0 is None: continue
                raise Unsupported('loop changes an address-valued local')
            nv = fresh('h', v0.sort())
            s.vars[('l', k)] = (v0, nv)
            t.env[k] = nv
        for g in sorted(s.gmods, key=str):
            v0 = s.st0.gh[g]
            nv = fresh('g', v0.sort())
            s.vars[('g', g)] = (v0, nv)
            t.gh[g] = nv
        s.F = {}
        for k in s.hmods:
            a0 = eng.harr(s.st0, k)
            f = fresh('H.%s.%s' % k, a0.sort())
            s.F[k] = (a0, f)
            b = s.bases.get(k, ())
            if b is not None:
                eng.framed[f.get_id()] = (f, a0, s.n0, list(b))
            t.heap[k] = f
        b0 = t.gh.get('brk')
        nb = fresh('brk', I)
        t.pc.append(nb >= (b0 if b0 is not None else z3.Int('brk0')))
        t.gh['brk'] = nb
        s.w = {}
        s.L = Loop()
        s.L.ix = ix; s.L.node = s.node; s.L.st0 = s.st0
        if s.emits:
            t.tr = Seq(t.tr, ('loop', s.L))
        heads = []
        if s.iter and s.iter[0] == 'list':
            _, k, h, R = s.iter
            s.L.kind, s.L.h, s.L.R = 'list', h, R
            l = eng.qlen(s.st0, h, R)
            eng.addfact(t, l >= 0)
            row = eng.rd(s.st0, ('at', R), h)
            a, b = t.copy(), t
            a.pc.append(ix < l)
            at = z3.Select(row, ix)
            eng.qat(a, h, ix, R)
            a.pc.append(at != 0)
            a.env[k] = at
            b.pc.append(ix == l)
            b.env[k] = z3.IntVal(0)
            heads = [a, b]
            for k2, h2, R2 in s.par:
                nh = []
                for x in heads:
                    l2 = eng.qlen(s.st0, h2, R2)
                    y, z = x.copy(), x
                    y.pc.append(ix < l2); y.env[k2] = eng.qat(y, h2, ix, R2); y.pc.append(y.env[k2] != 0)
                    z.pc.append(ix >= l2); z.env[k2] = z3.IntVal(0)
                    nh += [y, z]
                heads = nh
        elif s.iter:
            _, k, p0 = s.iter
            s.L.kind, s.L.p0 = 'char', p0
            t.env[k] = z3.simplify(p0 + ix)
            heads = [t]
        else:
            heads = [t]
        s.headst = heads[0].copy()
        fs = facts()
        for hst in heads:
            hst.pc.extend(fs)
        return heads

    def back(s, heads):
        """run one iteration: (back edges, exits) ; back edges carry (state, headpclen)"""
        eng = s.eng
        backs, exits = [], []
        for hs in heads:
            n = len(hs.pc)
            tr0 = hs.tr
            if s.cond is None: outs = [(True, hs)]
            else: outs = eng.cond(s.cond, hs)
            for b, t in outs:
                if not b:
                    exits.append(Out('fall', t)); continue
                for o in eng.exec(s.body, t):
                    if o.k in ('fall', 'continue'):
                        if s.inc is not None:
                            for _, t3 in eng.ev(s.inc, o.st): backs.append((t3, n, tr0))
                        else: backs.append((o.st, n, tr0))
                    elif o.k == 'break': exits.append(Out('fall', o.st))
                    else: exits.append(o)
        return backs, exits

    def storebases(s, a, f, acc):
        """bases of the stores between havoc symbol f and a; False if shape unknown"""
        seen = set()
        work = [a]
        while work:
            x = work.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if x.eq(f): continue
            if z3.is_app_of(x, z3.Z3_OP_STORE):
                acc.append(x.arg(1)); work.append(x.arg(0))
            elif z3.is_app_of(x, z3.Z3_OP_ITE):
                work.append(x.arg(1)); work.append(x.arg(2))
            else:
                fr = s.eng.framed.get(x.get_id())
                if fr is None: return False
                acc.extend(fr[3]); work.append(fr[1])
        return True

    def discover(s):
        """fixpoint of the modified sets and written bases"""
        eng = s.eng
        for rnd in range(8):
            n = len(eng.obl)
            backs, exits = s.back(s.head(lambda: []))
            del eng.obl[n:]
            changed = False
            for t, _, tr0 in backs:
                for k, v0 in s.st0.env.items():
                    if k in s.mods: continue
                    v = t.env.get(k)
                    if v is v0: continue
                    if z3.is_expr(v) and z3.is_expr(v0) and v.eq(v0): continue
                    if not z3.is_expr(v) and not z3.is_expr(v0) and v == v0: continue
                    s.mods.add(k); changed = True
                for k, a in t.heap.items():
                    if k in s.hmods and k not in s.F: continue   # found in this round
                    if k in s.hmods:
                        if s.bases.get(k, ()) is None: continue
                        acc = []
                        ok = s.storebases(a, s.F[k][1], acc)
                        b = list(s.bases.get(k, ()))
                        n1 = len(b)
                        if ok:
                            for x in acc:
                                f = eng.freshid(x)
                                if f is not None and f > s.n0: continue
                                if not s.oldinv(x): ok = False; break
                                if not any(x.eq(y) for y in b): b.append(x)
                        if not ok:
                            s.bases[k] = None; changed = True
                        elif len(b) != n1:
                            s.bases[k] = b; changed = True
                    else:
                        a0 = s.st0.heap.get(k)
                        if a0 is None: a0 = eng._default(k)
                        if not a.eq(a0):
                            s.hmods.add(k); changed = True
                for g, v in t.gh.items():
                    if g == 'brk' or g in s.gmods: continue
                    v0 = s.st0.gh.get(g)
                    if v0 is None or not v.eq(v0):
                        if v0 is None: raise Unsupported('ghost %s appears in a loop' % (g,))
                        s.gmods.add(g); changed = True
                if not s.emits and t.tr is not tr0:
                    s.emits = True; changed = True
            # list iterator must advance
            if s.iter and not changed:
                for t, n_, _ in backs:
                    if not s.iterstep(t):
                        s.cache['dead'].add(('it', str(s.iter[0]))); s.iter = None; changed = True; break
            if s.iter and not changed:
                for p in list(s.par):
                    for t, n_, _ in backs:
                        if not s.parstep(p, t):
                            s.cache['dead'].add(('par', str(p[0]))); s.par.remove(p); changed = True; break
            if s.iter is None: s.par = []
            if not changed:
                s.cache['h'] |= s.hmods; s.cache['g'] |= s.gmods; s.cache['emits'] = s.emits
                s.cache['m'] |= set(k[1] for k in s.mods if k[0] == s.st0.frame)
                return backs, exits
        raise Unsupported('loop at line %s: modified set does not converge' % s.node.line)

    def inv_or(s, t, extra):
        d = {}
        consts_of(t, d, set())
        return all(num(c) <= s.n0 or c.eq(extra) for c in d.values())

    def oldinv(s, x):
        return not has(x, s.ix) and s.eng.maxsym(x) <= s.n0 and invariant_term(x, s.n0, s.ix)

    def iterstep(s, t):
        eng = s.eng
        if s.iter[0] == 'list':
            _, k, h, R = s.iter
            l = eng.qlen(s.st0, h, R)
            if not eng.rd(t, ('len', R), h).eq(eng.rd(s.st0, ('len', R), h)): return False
            if not eng.rd(t, ('at', R), h).eq(eng.rd(s.st0, ('at', R), h)): return False
            nx = z3.simplify(s.ix + 1)
            want = z3.If(nx < l, eng.qat(t, h, nx, R), z3.IntVal(0))
            v = t.env[k]
            return v.eq(want) or eng.proves(t, v == want, 3000)
        _, k, p0 = s.iter
        v = z3.simplify(t.env[k])
        return v.eq(z3.simplify(p0 + s.ix + 1)) or eng.proves(t, v == p0 + s.ix + 1, 3000)

    def parstep(s, p, t):
        eng = s.eng
        k, h, R = p
        l = eng.qlen(s.st0, h, R)
        if not eng.rd(t, ('len', R), h).eq(eng.rd(s.st0, ('len', R), h)): return False
        if not eng.rd(t, ('at', R), h).eq(eng.rd(s.st0, ('at', R), h)): return False
        nx = z3.simplify(s.ix + 1)
        v = t.env[k]
        want = z3.If(nx < l, eng.qat(t, h, nx, R), z3.IntVal(0))
        return v.eq(want) or eng.proves(t, v == want, 3000)

    # -------------------------------------------------------------- history
    def pathconds(s, t, n):
        """conjuncts of the iteration's path condition over ix and loop-invariant symbols"""
        cs = []
        for c in t.pc[n:]:
            if c.get_id() in s.eng.facts: continue
            for x in conjs(c): cs.append(x)
        def inv(x): return invariant_term(x, s.n0, s.ix)
        out = []
        rest = []
        for x in cs:
            if z3.is_true(x): continue
            (out if inv(x) else rest).append(x)
        # eliminate iteration-local symbols through equalities
        for rnd in range(3):
            sub = []
            for x in rest:
                y = x
                if z3.is_not(y) and z3.is_not(y.arg(0)): y = y.arg(0).arg(0)
                if z3.is_eq(y):
                    for a, b in ((y.arg(0), y.arg(1)), (y.arg(1), y.arg(0))):
                        if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and not inv(a) and not has(b, a):
                            sub.append((a, b)); break
            if not sub: break
            nr = []
            for x in rest:
                y = z3.simplify(z3.substitute(x, *sub))
                if z3.is_true(y): continue
                for z in conjs(y):
                    if inv(z): out.append(z)
                    else: nr.append(z)
            if len(nr) == len(rest) and all(a.eq(b) for a, b in zip(nr, rest)): break
            rest = nr
        e = s.exgen(rest)
        if e is not None: out.append(e)
        return out

    def exgen(s, rest):
        """what an inner loop found: existential over its index symbols"""
        items = []
        for x in rest:
            d = {}
            consts_of(x, d, set())
            l = dict((c.get_id(), c) for c in d.values() if num(c) > s.n0 and not c.eq(s.ix))
            if l and all(z3.is_int(c) and c.decl().name().startswith('ix!') for c in l.values()): items.append(([x], l))
        # connected components
        comps = []
        for xs, l in items:
            mine = [c for c in comps if set(c[1]) & set(l)]
            for c in mine: comps.remove(c); xs = c[0] + xs; l = dict(list(l.items()) + list(c[1].items()))
            comps.append((xs, l))
        out = []
        for keep, loc in comps:
            vs = list(loc.values())
            pats = [find_select(keep, v) for v in vs]
            if any(p is None for p in pats): continue
            new = [fresh('jx', I) for v in vs]
            sub = list(zip(vs, new))
            body = z3.substitute(z3.And(*keep), *sub)
            pats = [z3.substitute(p, *sub) for p in pats]
            out.append(z3.Exists(new, body, patterns=[pats[0] if len(pats) == 1 else z3.MultiPattern(*pats)]))
        return z3.And(*out) if out else None

    def trigger(s):
        if s.iter[0] == 'list':
            _, k, h, R = s.iter
            return lambda j: z3.Select(s.eng.rd(s.st0, ('at', R), h), j)
        mem = s.eng.harr(s.st0, ('mem', 'B8'), 'char')
        return lambda j: z3.Select(mem, s.iter[2] + j)

    def forall(s, lo, hi, f):
        j = fresh('ix', I)
        b = z3.simplify(z3.substitute(f, (s.ixsym, j)))
        body = z3.Implies(z3.And(j >= lo, j < hi), b)
        tr = s.trigger()(j)
        if not has(b, j): return z3.Implies(lo < hi, b)
        return z3.ForAll([j], body, patterns=[tr])

    def run(s):
        eng = s.eng
        backs, exits = s.discover()
        # ---------------------------------------------------- candidates
        s.ixsym = s.ix
        ix0 = s.ix
        vars0 = dict(s.vars)
        H = None
        chg = {}
        cands = []   # (name, maker) ; maker(ix, get, w) -> formula
        if not s.iter:
            # pointer chase v = v->f : passed elements are RTC(v0) \ RTC(v)
            for vk, (v0, nv) in sorted(vars0.items(), key=lambda x: str(x[0])):
                if not z3.is_int(v0) or vk[0] != 'l' or not backs: continue
                key = None; ok = True
                for t, n, _ in backs:
                    v = t.env[vk[1]]
                    if z3.is_app_of(v, z3.Z3_OP_SELECT) and v.arg(1).eq(nv) and z3.is_const(v.arg(0)) and num(v.arg(0)) == 0:
                        if key is None: key = v.arg(0)
                        elif not key.eq(v.arg(0)): ok = False
                    else: ok = False
                if not ok or key is None: continue
                G = eng.rtc(key)
                per = []
                for t, n, _ in backs:
                    cs = [x for c in t.pc[n:] if c.get_id() not in eng.facts for x in conjs(c) if s.inv_or(x, nv)]
                    per.append(z3.And(*cs) if cs else z3.BoolVal(True))
                HC = z3.simplify(z3.Or(*per))
                def mkc(vk, v0, nv, G, HC):
                    def f(ix, get, w):
                        y = fresh('y', I)
                        x = get(vk)
                        return z3.And(z3.Implies(x != 0, G(v0, x)),
                                      z3.ForAll([y], z3.Implies(z3.And(G(v0, y), z3.Not(G(x, y))), z3.substitute(HC, (nv, y))), patterns=[G(v0, y)]))
                    return f
                cands.append(('chase', vk, mkc(vk, v0, nv, G, HC)))
                break
        if s.iter:
            per = [(s.pathconds(t, n), t) for t, n, _ in backs]
            H = z3.Or(*[z3.And(*p) if p else z3.BoolVal(True) for p, _ in per]) if per else z3.BoolVal(False)
            H = z3.simplify(H)
            for vk, (v0, nv) in vars0.items():
                un, ch, ok = [], [], True
                for p, t in per:
                    v = t.env[vk[1]] if vk[0] == 'l' else t.gh[vk[1]]
                    pc = z3.And(*p) if p else z3.BoolVal(True)
                    if z3.is_expr(v) and v.eq(nv): un.append(pc)
                    elif z3.is_expr(v):
                        g = v if invariant_term(v, s.n0, ix0) else None
                        if g is None and z3.is_app_of(v, z3.Z3_OP_ITE):
                            # merged: If(c, v1, v2)
                            ok2 = s.split_ite(v, nv, pc, un, ch, ix0)
                            continue
                        ch.append((pc, g))
                    else: ok = False
                if ok and (un or ch): chg[vk] = (un, ch)
        def curv(vk): return lambda t: (t.env[vk[1]] if vk[0] == 'l' else t.gh[vk[1]])
        if H is not None and not z3.is_true(H) and eng.hist:
            cands.append(('hist', lambda ix, get, w: s.forall(z3.IntVal(0), ix, H)))
        for pk, ph, pR in s.par:
            cands.append(('parle', ('l', pk), (lambda l2: lambda ix, get, w: ix <= l2)(eng.qlen(s.st0, ph, pR))))
        for vk, (v0, nv) in sorted(vars0.items(), key=lambda x: str(x[0])):
            cands.append(('eq0', vk, (lambda vk, v0: lambda ix, get, w: get(vk) == v0)(vk, v0)))
            if vk in chg and eng.hist:
                un, ch = chg[vk]
                U = z3.simplify(z3.Or(*un)) if un else z3.BoolVal(False)
                def mk(vk, v0, U, ch):
                    def f(ix, get, w):
                        x = get(vk)
                        alts = []
                        for pc, g in ch:
                            c = z3.substitute(pc, (s.ixsym, w[vk]))
                            if g is not None: c = z3.And(c, x == z3.substitute(g, (s.ixsym, w[vk])))
                            alts.append(c)
                        return z3.And(z3.Or(z3.And(w[vk] == -1, x == v0),
                                            z3.And(w[vk] >= 0, w[vk] < ix, z3.Or(*alts) if alts else z3.BoolVal(False))),
                                      s.forall(w[vk] + 1, ix, U) if not z3.is_true(U) else z3.BoolVal(True))
                    return f
                cands.append(('last', vk, mk(vk, v0, U, ch)))
            if z3.is_bv(v0):
                cs = set()
                for t, n, _ in backs:
                    v = curv(vk)(t)
                    s.leafconsts(v, cs)
                if z3.is_bv_value(z3.simplify(v0)): cs0 = set([z3.simplify(v0).as_long()])
                else: cs0 = set()
                w_ = v0.size()
                for c in sorted(cs):
                    cands.append(('pos%d' % c, vk, (lambda vk, c, w_: lambda ix, get, w: z3.Implies(ix > 0, get(vk) == z3.BitVecVal(c, w_)))(vk, c, w_)))
                cands.append(('zero', vk, (lambda vk, v0: lambda ix, get, w: z3.Implies(ix == 0, get(vk) == v0))(vk, v0)))
                cands.append(('cnt', vk, (lambda vk, v0, w_: lambda ix, get, w: get(vk) == z3.simplify(v0 + n2b(ix, w_)))(vk, v0, w_)))
                if w_ == 64 and hasattr(s, 'bix'):
                    def inc(vk, v0):
                        def f(ix, get, w):
                            b = z3.BitVecVal(0, 64) if z3.is_int_value(ix) else (s.bix if ix.eq(s.ix) else s.bix + 1)
                            x = get(vk) - v0
                            r = z3.ULE(x, b)
                            if vk in chg and eng.hist: r = z3.And(r, z3.Implies(w[vk] != -1, x != 0))
                            return r
                        return f
                    cands.append(('inc', vk, inc(vk, v0)))
                cands.append(('ge', vk, (lambda vk, v0: lambda ix, get, w: get(vk) >= v0)(vk, v0)))
                cands.append(('uge', vk, (lambda vk, v0: lambda ix, get, w: z3.UGE(get(vk), v0))(vk, v0)))
                if cs | cs0:
                    al = sorted(cs | cs0)
                    cands.append(('oneof', vk, (lambda vk, al, w_: lambda ix, get, w: z3.Or(*[get(vk) == z3.BitVecVal(c, w_) for c in al]))(vk, al, w_)))
                for b in s.bounds(vk):
                    cands.append(('ub', vk, (lambda vk, b: lambda ix, get, w: get(vk) <= b)(vk, b)))
                    cands.append(('uub', vk, (lambda vk, b: lambda ix, get, w: z3.ULE(get(vk), b))(vk, b)))
            elif z3.is_int(v0):
                cands.append(('nn', vk, (lambda vk: lambda ix, get, w: get(vk) != 0)(vk)))
        # candidates the specification suggests: formulas over any state of the loop
        for mk in eng.hints:
            for nm, f in mk(s): cands.append(('hint', nm, f))
        cands = [c if len(c) == 3 else (c[0], None, c[1]) for c in cands]
        def cname(c): return (c[0], str(c[1][1][1] if isinstance(c[1], tuple) and c[1][0] == 'l' else c[1]))
        cands = [c for c in cands if cname(c) not in s.cache['dead'] or c[0] in ('last', 'hist')]
        # entry
        w0 = dict((vk, z3.IntVal(-1)) for vk in vars0)
        get0 = lambda vk: vars0[vk][0]
        live = []
        for c in cands:
            f = z3.simplify(c[2](s.st0, z3.IntVal(0)) if c[0] == 'hint' else c[2](z3.IntVal(0), get0, w0))
            if z3.is_true(f) or eng.proves(s.st0, f, 2000): live.append(c)
            else: s.cache['dead'].add(cname(c))
        # eq0 that hold make the others redundant; others needed only if eq0 fails
        rounds = 0
        while True:
            rounds += 1
            if rounds > 12: raise Unsupported('invariant inference does not converge (line %s)' % s.node.line)
            n = len(eng.obl)
            def facts():
                s.w = dict((vk, fresh('ix', I)) for vk in vars0)
                get = lambda vk: s.vars[vk][1]
                return [c[2](s.headst, s.ix) if c[0] == 'hint' else c[2](s.ix, get, s.w) for c in live]
            heads = s.head(facts)
            hpc = [list(x.pc) for x in heads]
            backs, exits = s.back(heads)
            bad = set()
            for t, n_, _ in backs:
                if not eng.feasible(t): continue
                ok_it = True
                if s.iter and not s.iterstep(t):
                    raise Unsupported('iterator step lost at line %s' % s.node.line)
                if any(not s.parstep(p, t) for p in s.par): raise Unsupported('parallel iterator lost at line %s' % s.node.line)
                for c in live:
                    if id(c) in bad: continue
                    wn = {}
                    for vk in s.vars:
                        v = t.env[vk[1]] if vk[0] == 'l' else t.gh[vk[1]]
                        nv = s.vars[vk][1]
                        if z3.is_expr(v) and v.eq(nv): wn[vk] = s.w[vk]
                        elif z3.is_expr(v) and z3.is_app_of(v, z3.Z3_OP_ITE): wn[vk] = s.wite(v, nv, s.w[vk])
                        else: wn[vk] = s.ix
                    try:
                        if c[0] == 'cnt':
                            # v0 + [ix] + 1 == v0 + [ix + 1] modulo 2^w
                            f = t.env[c[1][1]] == s.vars[c[1]][1] + 1 if c[1][0] == 'l' else z3.BoolVal(False)
                        elif c[0] == 'hint': f = c[2](t, s.ix + 1)
                        else: f = c[2](s.ix + 1, lambda vk: (t.env[vk[1]] if vk[0] == 'l' else t.gh[vk[1]]), wn)
                        ok = eng.proves(t, f, 2500) or c[0] == 'hint' and eng.valid(t.pc, f, 2500)[0] is True
                        if not ok and eng.why == 'timeout' and c[0] in ('last', 'hist', 'inc'): eng.weak = True
                    except z3.Z3Exception:
                        ok = False
                    if not ok:
                        if DBG and c[0] == 'hint': print('drops', c[1], eng.why, 'at', s.node.line); print([x for x in t.pc if x.get_id() not in eng.facts], f) if DBG > 1 else None
                        bad.add(id(c)); s.cache['dead'].add(cname(c))
            # written-base frames must still hold (a weaker head may write elsewhere)
            if not bad: break
            live = [c for c in live if id(c) not in bad]
            del eng.obl[n:]
        if not s.frames_ok(backs): raise Unsupported('frame not stable at line %s' % s.node.line)
        s.L.headpc = hpc
        s.L.paths = [(t.pc[n_:], s.delta(t, tr0), t) for t, n_, tr0 in backs]
        s.L.heads = heads; s.L.head = s.headst
        s.L.live = [c[0] for c in live]
        if s.iter: eng.finite.add((eng.fn, s.node.line))
        eng.lastloops[(eng.fn, s.node.line)] = [c[1] for c in live if c[0] == 'hint']
        if DBG: print('loop', s.eng.fn, s.node.line, s.iter and s.iter[0], [(c[0], c[1]) for c in live])
        eng.loopinv = getattr(eng, 'loopinv', 0) + len(live)
        res = []
        for o in exits:
            if o.k == 'fall' or True: res.append(o)
        if len(res) > eng.merge_threshold: res = eng.merge(res)
        return res

    def delta(s, t, tr0):
        out = []
        c = t.tr
        while c is not tr0:
            out.append(c.item); c = c.prev
            if c is None: raise Unsupported('trace shape')
        return out[::-1]

    def frames_ok(s, backs):
        for t, _, _ in backs:
            for k, a in t.heap.items():
                if k not in s.F:
                    a0 = s.st0.heap.get(k)
                    if a0 is None: a0 = s.eng._default(k)
                    if not a.eq(a0): return False
                    continue
                b = s.bases.get(k, ())
                if b is None: continue
                acc = []
                if not s.storebases(a, s.F[k][1], acc): return False
                for x in acc:
                    f = s.eng.freshid(x)
                    if f is not None and f > s.n0: continue
                    if not any(x.eq(y) for y in b): return False
        return True

    def split_ite(s, v, nv, pc, un, ch, ix0):
        if v.eq(nv): un.append(pc); return
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            c = v.arg(0)
            ok = invariant_term(c, s.n0, ix0)
            p1 = z3.And(pc, c) if ok else pc
            p2 = z3.And(pc, z3.Not(c)) if ok else pc
            s.split_ite(v.arg(1), nv, p1, un, ch, ix0); s.split_ite(v.arg(2), nv, p2, un, ch, ix0); return
        ch.append((pc, v if invariant_term(v, s.n0, ix0) else None))

    def wite(s, v, nv, w):
        if v.eq(nv): return w
        if z3.is_app_of(v, z3.Z3_OP_ITE): return z3.If(v.arg(0), s.wite(v.arg(1), nv, w), s.wite(v.arg(2), nv, w))
        return s.ix

    def leafconsts(s, v, acc):
        v = z3.simplify(v) if z3.is_expr(v) else v
        if z3.is_bv_value(v): acc.add(v.as_long())
        elif z3.is_app_of(v, z3.Z3_OP_ITE): s.leafconsts(v.arg(1), acc); s.leafconsts(v.arg(2), acc)

    def bounds(s, vk):
        """comparison partners of the variable in the loop condition"""
        out = []
        if s.cond is None or vk[0] != 'l': return out
        def walk(n):
            if n.kind == 'BinaryOperator' and n.a['opcode'] in ('<', '<=', '!='):
                l, r = n.ch
                b = l
                while b.kind in ('ParenExpr', 'ImplicitCastExpr'): b = b.ch[0]
                if b.kind == 'DeclRefExpr' and b.a['ref'][2] == vk[1][1]:
                    try:
                        t = s.st0.copy()
                        x = s.eng.ev(r, t)
                        if len(x) == 1 and z3.is_bv(x[0][0]) and x[0][0].size() == s.vars[vk][0].size() and invariant_term(x[0][0], s.n0, s.ix):
                            out.append(x[0][0])
                    except Unsupported: pass
            for c in n.ch: walk(c)
        walk(s.cond)
        return out
