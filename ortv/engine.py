"""ortv: a contract-based deductive verifier for the C subset openradtool uses.

Forward symbolic execution of one function at a time.  Calls to functions with
a contract use only the contract; functions without one are inlined; loops are
cut at an automatically inferred inductive invariant (Houdini over candidate
predicates, including quantified history facts over the abstract sequence or
index a loop walks).  Every obligation is discharged by z3."""
import os
import re, time, itertools, sys
import z3
from cfront import N

I = z3.IntSort()
B8, B32, B64 = z3.BitVecSort(8), z3.BitVecSort(32), z3.BitVecSort(64)
FP = z3.FPSort(11, 53)
S2 = z3.Function('strcontent', I, I)      # string content id at an address
LOW = z3.Function('strlower', I, I)       # lower-cased content
LEN = z3.Function('strlen_of', I, B64)    # length of content id
z3.set_param('smt.mbqi', False)
z3.set_param('auto_config', False)

_n2b = {}
def n2b(t, w):
    """the w-bit representation of a mathematical count (uninterpreted but for
    constants; stepping it is handled where a counter invariant is checked)"""
    t = z3.simplify(t)
    if z3.is_int_value(t): return z3.BitVecVal(t.as_long(), w)
    if w not in _n2b: _n2b[w] = z3.Function('n2b%d' % w, I, z3.BitVecSort(w))
    r = _n2b[w](t)
    if r.get_id() not in _n2bf:
        inv = z3.Function('b2n%d' % w, z3.BitVecSort(w), I)
        _n2bf[('0', w)] = (r, inv(z3.BitVecVal(0, w)) == 0)
        _n2bf[r.get_id()] = (r, z3.Implies(z3.And(t >= 0, t < 2 ** 30), inv(r) == t))
    return r
_n2bf = {}

class Unsupported(Exception):
    pass

class Ctx(object):
    pass

class ObligationFailed(Exception):
    pass

class LocalAddr(object):
    __slots__ = ('key',)
    def __init__(s, key): s.key = key
    def __eq__(s, o): return isinstance(o, LocalAddr) and s.key == o.key
    def __hash__(s): return hash(s.key)

class FieldAddr(object):
    """address of a scalar struct field"""
    __slots__ = ('base', 'fk', 'ty')
    def __init__(s, base, fk, ty): s.base, s.fk, s.ty = base, fk, ty

class MemAddr(object):
    __slots__ = ('addr', 'ty')
    def __init__(s, addr, ty): s.addr, s.ty = addr, ty

class Seq(object):
    """output chunk list as an immutable cons"""
    __slots__ = ('prev', 'item', 'n')
    def __init__(s, prev, item): s.prev, s.item, s.n = prev, item, (prev.n if prev else 0) + 1
    def items(s):
        out = []; c = s
        while c is not None and c.item is not None:
            out.append(c.item); c = c.prev
        return out[::-1]
EMPTY = Seq(None, None)

class St(object):
    __slots__ = ('env', 'heap', 'pc', 'gh', 'tr', 'frame')
    def __init__(s):
        s.env, s.heap, s.pc, s.gh, s.tr, s.frame = {}, {}, [], {}, EMPTY, 0
    def copy(s):
        n = St()
        n.env, n.heap, n.pc, n.gh, n.tr, n.frame = dict(s.env), dict(s.heap), list(s.pc), dict(s.gh), s.tr, s.frame
        return n
    def add(s, c):
        if z3.is_true(c): return s
        s.pc.append(c); return s
    def emit(s, item):
        s.tr = Seq(s.tr, item)

class Out(object):
    __slots__ = ('k', 'st', 'v')
    def __init__(s, k, st, v=None): s.k, s.st, s.v = k, st, v

_fresh = itertools.count()
def fresh(p, sort):
    return z3.Const('%s!%d' % (p, next(_fresh)), sort)

def either(st):
    """a second outcome of a call, told apart from the first in the path condition"""
    b = fresh('outcome', z3.BoolSort())
    t = st.copy(); t.pc.append(b); st.pc.append(z3.Not(b))
    return t

def strip(t):
    t = t.replace('const ', '').replace(' const', '').replace('const', '').replace('volatile ', '').replace('restrict', '').replace('__', '__').strip()
    return t

WID = {'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True),
       'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False), 'long': (64, True),
       'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False), '_Bool': (8, False),
       'int64_t': (64, True), 'uint64_t': (64, False), 'size_t': (64, False), 'time_t': (64, True), 'ssize_t': (64, True), 'uint32_t': (32, False)}

def is_ptr(t):
    t = strip(t)
    return t.endswith('*') or t.endswith(']') or '(*' in t or t.endswith(')')

def pointee(t):
    t = strip(t)
    if t.endswith('*'): return strip(t[:-1])
    m = re.match(r'(.*)\[\d*\]$', t)
    if m: return strip(m.group(1))
    return 'void'

def recof(t):
    t = strip(t)
    m = re.match(r'(struct|union) ([\w:]+)$', t)
    return m.group(2) if m else None

def intw(t):
    t = strip(t)
    if t in WID: return WID[t]
    if t.startswith('enum '): return (32, False)
    return None

def sort_of(t):
    t = strip(t)
    if is_ptr(t): return I
    w = intw(t)
    if w: return z3.BitVecSort(w[0])
    if t in ('double', 'float'): return FP
    if recof(t): return I
    if t == 'void': return B32
    return I if t.startswith('va_list') or 'va_list' in t else B64

class Eng(object):
    @staticmethod
    def fnres(name, sort, *a):
        """the result of a function that only reads its arguments"""
        return z3.Function('result.' + name, *([x.sort() for x in a] + [sort]))(*a)
    def __init__(s, prog, contracts=None, timeout=20000):
        s.prog = prog
        s.con = dict(contracts or {})
        s.lits = {}           # text -> address (negative int)
        s.littext = {}
        s.contentids = {}
        s.timeout = timeout
        s.obl = []            # (name, ok, seconds, info)
        s.assumptions = set()
        s.depth = 0
        s.inlined = set()
        s.fn = '?'
        s.nq = 0
        s.first_terms = {}
        s.check_deref = False
        s.check_ovf = False
        s.offs = {}
        s.deadline = None
        s.maxstates = 6000
        s.stats = {'q': 0, 't': 0.0}
        s._ms = {}
        s._sel = {}
        s.objs = {}          # allocated object constants: id -> (term, number)
        s.framed = {}        # loop-havoc arrays: id -> (array, entry array, number, written bases)
        s.loopcache = {}
        s.curfile = None
        s.io = 'ok'          # 'ok': output succeeds; 'fork': it may fail
        s.mem = 'ok'         # same for allocation
        s.unroll = 70
        s.rtcs = {}
        s.trace_slow = bool(os.environ.get('ORTV_SLOW'))
        s._hq = {}
        s.ownfacts = False
        s.rows = {}
        s.labelenv = {}
        s.uninit = {}
        s.lastloops = {}
        s.finite = set()    # loops over a list or a string
        s.qfeas = True       # use quantified facts to prune paths
        s.hist = True        # infer history facts
        s.facts = {}         # structural facts (type and list well-formedness)
        s.axioms = []
        s.zeroed = {}        # calloc'd objects
        s.locarr = {}        # local buffers initialised by a string
        s.ws = False
        s.rcs = False         # fprintf's result is any count
        s.forms = False       # contents of formatted strings as functions of their arguments'
        s.strform = {}       # address of a formatted string -> chunks
        s.uidx = False       # element addresses uninterpreted (read-only arrays)
        s.weak = False       # a solver gave no answer in time somewhere
        s.mergetr = False    # merge paths with different output into conditionals
        s.escape = False;
        s.pushed = set()     # list types whose appends are observable output

    @property
    def macros(s):
        if getattr(s.prog, '_macros', None) is None:
            import cfront
            s.prog._macros = cfront.macros(s.prog.dst)
        return s.prog._macros

    # ---------------------------------------------------------------- solver
    def _mk(s, tmo):
        sv = z3.Solver()
        sv.set('timeout', int(tmo))
        return sv

    def check(s, cs, tmo=2000, mbqi=False, norel=False):
        if s.deadline and time.time() > s.deadline:
            raise Unsupported('time budget exhausted')
        t = time.time()
        s.why = ''
        q = bool(s.axioms) or any(s.hasq(c) for c in cs)
        sv = s._mk(tmo)
        if mbqi: sv.set('mbqi', True)
        if norel: sv.set('relevancy', 0)
        sv.add(*cs)
        if _n2bf: sv.add(*[f for _, f in _n2bf.values()])
        if s.axioms: sv.add(*s.axioms)
        r = sv.check()
        if r == z3.unknown:
            # without model-based instantiation: saturation means no contradiction follows
            s.why = 'saturated' if q and not mbqi and 'incomplete' in sv.reason_unknown() else 'timeout'
        s.stats['q'] += 1
        dt = time.time() - t
        s.stats['t'] += dt
        if dt > 0.05 and s.trace_slow: print('SLOW %.2f %s %s' % (dt, r, str(cs[-1])[:300].replace(chr(10), ' ')))
        return r, sv

    def hasq(s, c):
        i = c.get_id()
        r = s._hq.get(i)
        if r is None:
            r = (c, z3.is_quantifier(c) or any(s.hasq(x) for x in c.children()))
            s._hq[i] = r
        return r[1]

    def feasible(s, st, extra=None):
        """may over-approximate: quantified facts get little time"""
        cs = st.pc + ([extra] if extra is not None else [])
        for c in cs[-3:]:
            if z3.is_false(c): return False
        qf = [c for c in cs if not s.hasq(c)]
        ax, s.axioms = s.axioms, []
        try: r = s.check(qf, 1500)[0]
        finally: s.axioms = ax
        if r == z3.unsat: return False
        if len(qf) == len(cs) and not ax: return True
        if not s.qfeas: return True
        return s.check(cs, 250)[0] != z3.unsat

    def proves(s, st, goal, tmo=None):
        if isinstance(goal, bool): 
            if goal: return True
            goal = z3.BoolVal(False)
        if z3.is_true(goal): return True
        return s.check(st.pc + [z3.Not(goal)], tmo or s.timeout)[0] == z3.unsat

    def valid(s, cs, goal, tmo):
        """True, False (refuted or saturated) or None (no answer in time)"""
        r, sv = s.check(cs + [z3.Not(goal)], tmo)
        if r == z3.unsat: return True, sv
        w = s.why
        if r == z3.unknown and (s.axioms or any(s.hasq(c) for c in cs)):
            r2, sv2 = s.check(cs + [z3.Not(goal)], min(tmo, 4000), norel=True)
            if r2 == z3.unsat: return True, sv2
        if r == z3.unknown:
            r2, sv2 = s.check(cs + [z3.Not(goal)], min(tmo, 4000), mbqi=True)
            if r2 == z3.unsat: return True, sv2
            if r2 == z3.sat: return False, sv2
        return (None if w == 'timeout' else False), sv

    def oblige(s, st, goal, name, line=None):
        t = time.time()
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        v, sv = s.valid(st.pc, goal, s.timeout)
        ok = v is True
        info = ''
        if v is False:
            info = 'not discharged'
            try: info += '\nmodel: ' + str(sv.model())[:1500]
            except z3.Z3Exception: pass
        elif v is None: info = 'no answer in time'; s.weak = True
        s.obl.append({'fn': s.fn, 'name': name, 'ok': ok, 'res': 'unsat' if ok else ('failed' if v is False else 'timeout'), 't': time.time() - t, 'info': info, 'line': line})
        return ok

    # ---------------------------------------------------------------- strings
    def lit(s, text):
        if text not in s.lits:
            a = -(1000 + len(s.lits))
            s.lits[text] = a
            s.littext[a] = text
        return z3.IntVal(s.lits[text])

    def cid(s, text):
        """content id of a literal: a fixed negative integer per distinct text"""
        if text not in s.contentids:
            s.contentids[text] = -(100000 + len(s.contentids))
        return z3.IntVal(s.contentids[text])

    def content(s, addr):
        """content id of the string at addr; distributes over ITE of literals"""
        if z3.is_int_value(addr):
            v = addr.as_long()
            if v in s.littext: return s.cid(s.littext[v])
        if z3.is_app_of(addr, z3.Z3_OP_ITE):
            return z3.If(addr.arg(0), s.content(addr.arg(1)), s.content(addr.arg(2)))
        return S2(addr)

    def lower(s, c):
        if z3.is_int_value(c):
            for t, v in s.contentids.items():
                if v == c.as_long(): return s.cid(t.lower())
        if z3.is_app_of(c, z3.Z3_OP_ITE):
            return z3.If(c.arg(0), s.lower(c.arg(1)), s.lower(c.arg(2)))
        return LOW(c)

    # ---------------------------------------------------------------- heap
    def hsort(s, ty):
        return sort_of(ty)

    def harr(s, st, key, ty=None):
        if key not in st.heap:
            if key[0] == 'len': a = z3.Array('len.' + key[1], I, I)
            elif key[0] == 'at': a = z3.Array('at.' + key[1], I, z3.ArraySort(I, I))
            elif key[0] in ('own', 'idx'): a = z3.Array('%s.%s' % key, I, I)
            elif key[0] == 'mem': a = z3.Array('mem.%s' % key[1], I, sort_of(ty or {'B8': 'char', 'BitVec(32)': 'int', 'BitVec(64)': 'long', 'BitVec(16)': 'short'}.get(key[1], 'char *')))
            else: a = z3.Array('%s.%s' % key, I, sort_of(ty or s.fieldtype(key)))
            st.heap[key] = a
        return st.heap[key]

    def fieldtype(s, key):
        return s.prog.structure[key[0]][key[1]]

    def rd(s, st, key, base, ty=None):
        return s.sel(s.harr(st, key, ty), base)

    def sel(s, a, base):
        k = (a.get_id(), base.get_id(), len(s.framed))
        r = s._sel.get(k)
        if r is None:
            r = s.sel1(a, base)
            s._sel[k] = (r, a, base)
            return r
        return r[0]

    def sel1(s, a, base):
        # read-over-write and frame simplification
        while True:
            if z3.is_app_of(a, z3.Z3_OP_STORE):
                if a.arg(1).eq(base): return a.arg(2)
                if s.distinct(a.arg(1), base): a = a.arg(0); continue
                return z3.Select(a, base)
            if base.get_id() in s.zeroed or s.zeroagg(base):
                f = s.freshid(base)
                if s.maxsym(a) < f:
                    so = a.sort().range()
                    if so == I: return z3.IntVal(0)
                    if z3.is_bv_sort(so): return z3.BitVecVal(0, so.size())
                    if so == FP: return z3.FPVal(0, FP)
            fr = s.framed.get(a.get_id())
            if fr is not None and s.maxsym(base) <= fr[2] and all(s.distinct(b, base) for b in fr[3]):
                a = fr[1]; continue
            if z3.is_app_of(a, z3.Z3_OP_ITE):
                x, y = s.sel(a.arg(1), base), s.sel(a.arg(2), base)
                return x if x.eq(y) else z3.If(a.arg(0), x, y)
            return z3.Select(a, base)

    def wr(s, st, key, base, v, ty=None):
        st.heap[key] = z3.Store(s.harr(st, key, ty), base, v)

    def off(s, st, rec, fld, base):
        """address of an embedded aggregate"""
        f = s.offs.setdefault((rec, fld), (z3.Function('off.%s.%s' % (rec, fld), I, I),
                                           z3.Function('inv.%s.%s' % (rec, fld), I, I), len(s.offs) + 1))
        t = f[0](base)
        fact = z3.And(f[1](t) == base, TAG(t) == f[2], t != 0)
        s.addfact(st, fact)
        return t

    def addfact(s, st, f):
        i = f.get_id()
        if i in s.facts and any(c is not None and c.get_id() == i for c in st.pc[-60:]): return
        s.facts[i] = f
        st.pc.append(f)

    # ------------------------------------------------------------ sequences
    # A TAILQ head of record type R is the ghost sequence (len.R[h], at.R[h][0..len));
    # element e of record type E knows its list own.E.link[e] and position idx.E.link[e].
    def headinfo(s, R, h):
        E = recof(pointee(s.prog.structure[R]['tqh_first']))
        links = [f for f, ty in s.prog.structure[E].items()
                 if recof(ty) and 'tqe_next' in s.prog.structure.get(recof(ty), {})]
        link = 'entries'
        if 'allentries' in links and z3.is_app(h) and h.decl().name() == 'off.config.arq':
            link = 'allentries'
        return E, '%s.%s' % (E, link)

    def qlen(s, st, h, R):
        l = s.rd(st, ('len', R), h)
        s.addfact(st, z3.And(l >= 0, l < 2 ** 30))
        s.assumptions.add('lists hold fewer than 2^30 elements')
        return l

    def qat(s, st, h, i, R):
        E, lk = s.headinfo(R, h)
        row = s.rd(st, ('at', R), h)
        if not z3.is_app_of(row, z3.Z3_OP_SELECT): s.rows[row.get_id()] = (row, h)
        e = z3.Select(row, i)
        l = s.rd(st, ('len', R), h)
        if not z3.is_var(i):
            if s.ownfacts:
                s.addfact(st, z3.Implies(z3.And(i >= 0, i < l),
                      z3.And(e != 0, s.rd(st, ('own', lk), e) == h, s.rd(st, ('idx', lk), e) == i)))
            else: s.addfact(st, z3.Implies(z3.And(i >= 0, i < l), e != 0))
        return e

    def qfirst(s, st, h, R):
        l = s.qlen(st, h, R)
        if z3.is_int_value(l):
            return s.qat(st, h, z3.IntVal(0), R) if l.as_long() > 0 else z3.IntVal(0)
        t = z3.If(l > 0, s.qat(st, h, z3.IntVal(0), R), z3.IntVal(0))
        s.first_terms[t.get_id()] = (t, h, R)
        return t

    def headrec(s, E, link):
        for R, fl in s.prog.structure.items():
            if 'tqh_first' in fl and recof(pointee(fl['tqh_first'])) == E: return R
        raise Unsupported('no head type for ' + E)

    def qnext(s, st, e, E, link):
        R = s.headrec(E, link)
        h = i = None
        if z3.is_app_of(e, z3.Z3_OP_SELECT) and z3.is_app_of(e.arg(0), z3.Z3_OP_SELECT):
            row = e.arg(0)
            hh = row.arg(1)
            if s.rd(st, ('at', R), hh).eq(row): h, i = hh, e.arg(1)
        elif z3.is_app_of(e, z3.Z3_OP_SELECT) and e.arg(0).get_id() in s.rows:
            row, hh = s.rows[e.arg(0).get_id()]
            if s.rd(st, ('at', R), hh).eq(row): h, i = hh, e.arg(1)
        if h is None:
            lk = '%s.%s' % (E, link)
            h = s.rd(st, ('own', lk), e)
            i = s.rd(st, ('idx', lk), e)
            s.addfact(st, z3.Implies(e != 0, z3.And(i >= 0, i < s.qlen(st, h, R), s.qat(st, h, i, R) == e)))
            s.assumptions.add('elements whose successor is read are linked in a list')
        l = s.qlen(st, h, R)
        i = z3.simplify(i + 1)
        return z3.If(i < l, s.qat(st, h, i, R), z3.IntVal(0))

    def rtc(s, arr):
        """reflexive transitive closure of a pointer field (initial heap)"""
        nm = arr.decl().name()
        if nm not in s.rtcs:
            G = z3.Function('rtc.' + nm, I, I, z3.BoolSort())
            a, b = z3.Consts('a b', I)
            s.rtcs[nm] = G
            s.axioms += [
                z3.ForAll([b], z3.Not(G(0, b)), patterns=[G(0, b)]),
                z3.ForAll([b], z3.Implies(b != 0, G(b, b)), patterns=[G(b, b)]),
                z3.ForAll([a, b], z3.Implies(G(a, b), z3.And(a != 0, b != 0)), patterns=[G(a, b)]),
                z3.ForAll([a, b], G(a, b) == z3.And(a != 0, z3.Or(a == b, G(z3.Select(arr, a), b))), patterns=[z3.MultiPattern(G(a, b), z3.Select(arr, a))]),
                z3.ForAll([a, b], z3.Implies(z3.And(G(a, b), z3.Select(arr, b) != 0), G(a, z3.Select(arr, b))), patterns=[z3.MultiPattern(G(a, b), z3.Select(arr, b))])]
            s.assumptions.add('axioms of the reflexive transitive closure of ' + nm)
        return s.rtcs[nm]

    def zeroagg(s, t):
        while z3.is_app(t) and t.num_args() == 1 and t.decl().name().startswith('off.'): t = t.arg(0)
        return t.get_id() in s.zeroed

    def lit_of_node(s, n):
        while n.kind in ('ImplicitCastExpr', 'ParenExpr'): n = n.ch[0]
        return cstr(n.a['value'])

    # oldness ------------------------------------------------------------
    def maxsym(s, t):
        """largest creation number of a pointer-or-array constant in t"""
        c = s._ms.get(t.get_id())
        if c is not None: return c[1]
        if z3.is_const(t):
            nm = t.decl().name()
            n = 0
            if '!' in nm and not nm.startswith('ix!') and not z3.is_bv(t) and not z3.is_bool(t):
                n = int(nm.rsplit('!', 1)[1])
        else:
            n = 0
            for ch in t.children():
                if z3.is_quantifier(ch): n = 1 << 60; break
                n = max(n, s.maxsym(ch))
        s._ms[t.get_id()] = (t, n)
        return n

    def freshid(s, t):
        """creation number if t is an allocated object, else None"""
        if z3.is_const(t) and t.get_id() in s.objs: return s.objs[t.get_id()][1]
        # embedded aggregate inside an allocated object
        if z3.is_app(t) and t.num_args() == 1 and t.decl().name().startswith('off.'):
            return s.freshid(t.arg(0))
        return None

    def distinct(s, a, b):
        """syntactic proof that addresses a and b differ"""
        fa, fb = s.freshid(a), s.freshid(b)
        if fa is not None and s.maxsym(b) < fa: return True
        if fb is not None and s.maxsym(a) < fb: return True
        if z3.is_int_value(a) and z3.is_int_value(b): return a.as_long() != b.as_long()
        oa = z3.is_app(a) and a.decl().name().startswith('off.')
        ob = z3.is_app(b) and b.decl().name().startswith('off.')
        if oa and ob and a.decl().name() != b.decl().name(): return True
        if z3.is_int_value(a) and a.as_long() == 0 and (ob or fb is not None): return True
        if z3.is_int_value(b) and b.as_long() == 0 and (oa or fa is not None): return True
        return False

    # ---------------------------------------------------------------- casts
    def tobool(s, v):
        if isinstance(v, (LocalAddr, FieldAddr, MemAddr)): return z3.BoolVal(True)
        if z3.is_bool(v): return v
        if z3.is_int(v): return v != 0
        if z3.is_bv(v): return v != 0
        if z3.is_fp(v): return z3.Not(z3.fpIsZero(v))
        raise Unsupported('tobool')

    def tobv(s, v, w):
        if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        return v

    def cast(s, v, fr, to):
        """integral conversions"""
        if isinstance(v, (LocalAddr, FieldAddr, MemAddr)): return v
        tw = intw(to)
        if tw is None:
            if strip(to) in ('double', 'float'):
                if z3.is_fp(v): return FLT(v) if strip(to) == 'float' and strip(fr) != 'float' else v
                fw = intw(fr)
                v = s.tobv(v, fw[0] if fw else 32)
                return z3.fpToFP(z3.RNE(), v, FP) if (fw and fw[1]) else z3.fpToFPUnsigned(z3.RNE(), v, FP)
            if is_ptr(to) and z3.is_bv(v):
                return z3.BV2Int(v)
            return v
        if z3.is_bool(v): return s.tobv(v, tw[0])
        if z3.is_fp(v): return z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(tw[0]))
        if z3.is_int(v):   # pointer to int
            return z3.Int2BV(v, tw[0])
        fw = intw(fr) or (v.size(), True)
        if v.size() == tw[0]: return v
        if v.size() > tw[0]: return z3.Extract(tw[0] - 1, 0, v)
        return z3.SignExt(tw[0] - v.size(), v) if fw[1] else z3.ZeroExt(tw[0] - v.size(), v)

    # ------------------------------------------------------------ functions
    def call_function(s, fd, args, st):
        """inline fd"""
        if s.depth > 40: raise Unsupported('inline depth in ' + fd.name)
        st = st.copy() if False else st
        oldframe = st.frame
        s.frames = getattr(s, 'frames', 0) + 1
        fr = s.frames
        st.frame = fr
        for p, a in zip(fd.params, args):
            st.env[(fr, p.a['id'])] = s.param(a, p.ty)
        s.depth += 1
        ofile = s.curfile; s.curfile = fd.file
        try:
            outs = s.exec(fd.body, st)
        finally:
            s.depth -= 1
            s.curfile = ofile
        res = []
        for o in outs:
            if isinstance(o.k, tuple) and s.onback is not None and (o.st.frame, o.k[1]) in s.labelenv:
                # a jump back: by induction the rest satisfies the postcondition, if its locals
                # are those of the label's first passing and the contract's invariant holds
                for k, v in s.labelenv[(o.st.frame, o.k[1])].items():
                    w = o.st.env.get(k)
                    if v is None or w is v or not z3.is_expr(v) and v == w or v.get_id() in s.uninit: continue
                    s.oblige(o.st, w == v, 'locals are as before on the jump back')
                s.onback(o.st)
                continue
            if o.k in ('fall', 'return'):
                o.st.frame = oldframe
                res.append((s.norm(o.v, fd.rtype) if o.k == 'return' else None, o.st))
            else:
                raise Unsupported('escape %s from %s' % (o.k, fd.name))
        return s.merge_ret(res)

    def param(s, a, ty):
        if a is None: return None
        if isinstance(a, (LocalAddr, FieldAddr, MemAddr)): return a
        w = intw(ty)
        if w and z3.is_bool(a): return s.tobv(a, w[0])
        return a

    def start(s, fname, file=None, args=None, heap=None):
        """symbolic entry state of a function: (FuncDef, args, state)"""
        fd = s.prog.find(fname, file)
        if fd is None: raise Unsupported('function %s not found' % fname)
        st = St()
        st.gh = {'ioerr': z3.BoolVal(False), 'memerr': z3.BoolVal(False), 'brk': z3.Int('brk0')}
        vals = []
        for p in fd.params:
            nm = p.a.get('name', '_')
            if args and nm in args: vals.append(args[nm]); continue
            vals.append(z3.Const(nm, sort_of(p.ty)))
        return fd, vals, st

    def runfn(s, fd, vals, st):
        s.curfile = fd.file
        s.fn = fd.name
        s.stack = [fd.name]
        old = s.merge_threshold
        res = s.call_function(fd, vals, st)
        return res

    # --------------------------------------------------------------- merging
    def merge_ret(s, res):
        if len(res) <= s.merge_threshold: return res
        outs = [Out('fall', st, v) for v, st in res]
        outs = s.merge(outs)
        return [(o.v, o.st) for o in outs]
    merge_threshold = 6
    asserts = True      # assertions are obligations
    anyext = None       # contracts of functions of other files
    hints = ()          # loop invariant candidates of the specification

    def merge(s, outs):
        """merge outcomes with equal kind, trace and ghost tags"""
        groups = {}
        order = []
        for o in outs:
            key = (o.k if isinstance(o.k, str) else o.k, 0 if s.mergetr else id(o.st.tr), o.st.frame,
                   tuple(sorted((str(k), x if isinstance(x, (int, str, bool)) else 0) for k, x in o.st.gh.items() if not (isinstance(k, tuple)))),
                   (z3.is_int_value(o.v) and o.v.as_long()) if (o.v is not None and not isinstance(o.v, (LocalAddr, FieldAddr, MemAddr))) and z3.is_expr(o.v) and z3.is_int(o.v) and z3.is_int_value(o.v) else (isinstance(o.v, LocalAddr) and o.v.key))
            if key not in groups:
                groups[key] = []; order.append(key)
            groups[key].append(o)
        res = []
        for key in order:
            g = groups[key]
            while len(g) > 1:
                a, b = g[0], g[1]
                m = s.merge2(a, b)
                if m is None:
                    res.append(a); g = g[1:]
                else:
                    g = [m] + g[2:]
            res.extend(g)
        return res

    def merge2(s, a, b):
        A, B = a.st, b.st
        n = 0
        for x, y in zip(A.pc, B.pc):
            if x is y or x.eq(y): n += 1
            else: break
        # structural facts and facts about fresh objects hold on either side
        sa = [c for c in A.pc[n:] if c.get_id() not in s.facts]
        sb = [c for c in B.pc[n:] if c.get_id() not in s.facts]
        fs = [c for c in A.pc[n:] + B.pc[n:] if c.get_id() in s.facts]
        ga = z3.And(*sa) if len(sa) > 1 else sa[0] if sa else z3.BoolVal(True)
        gb = z3.And(*sb) if len(sb) > 1 else sb[0] if sb else z3.BoolVal(True)
        if os.environ.get('ORTV_EXCL'):
            cs = [c for c in A.pc[:n] + sa + sb + fs if not s.hasq(c)]
            if s.check(cs, 2000)[0] != z3.unsat: print('NOT EXCLUSIVE', s.fn, s.check(cs, 2000)[0], z3.And(*sa), "\n---AND", z3.And(*sb))
        def mv(x, y):
            if x is y: return x
            if x is None or y is None: return None
            ex, ey = z3.is_expr(x), z3.is_expr(y)
            if ex and ey:
                if x.eq(y): return x
                if x.sort() != y.sort():
                    if z3.is_bool(x) and z3.is_bv(y): x = s.tobv(x, y.size())
                    elif z3.is_bool(y) and z3.is_bv(x): y = s.tobv(y, x.size())
                    else: raise Unsupported('merge sorts')
                return z3.If(ga, x, y)
            if x == y: return x
            raise KeyError
        try:
            m = St()
            m.frame, m.tr = A.frame, A.tr
            if A.tr is not B.tr: m.tr = s.mergetrace(A.tr, B.tr, ga)
            o = z3.simplify(z3.Or(ga, gb))
            m.pc = A.pc[:n] + fs + ([] if z3.is_true(o) else [o])
            for k in set(A.env) | set(B.env):
                if k in A.env and k in B.env:
                    v = mv(A.env[k], B.env[k])
                    if v is not None: m.env[k] = v
            for k in set(A.heap) | set(B.heap):
                x = A.heap.get(k); y = B.heap.get(k)
                if x is None: x = s._default(k)
                if y is None: y = s._default(k)
                m.heap[k] = mv(x, y)
            for k in set(A.gh) | set(B.gh):
                x, y = A.gh.get(k), B.gh.get(k)
                if isinstance(k, tuple) and k[0] == 'pos':
                    if x is not None and y is not None and x[0].eq(y[0]) and x[1].eq(y[1]): m.gh[k] = x
                    continue
                if x is None or y is None: return None
                m.gh[k] = mv(x, y)
            v = None
            if a.v is not None or b.v is not None:
                v = mv(a.v, b.v)
            return Out(a.k, m, v)
        except KeyError:
            return None

    def mergetrace(s, x, y, g):
        """output of two merged paths: what they share, then a conditional"""
        a, b = [], []
        while x is not y:
            if x.n >= y.n: a.append(x.item); x = x.prev
            else: b.append(y.item); y = y.prev
        return Seq(x, ('cond', g, a[::-1], b[::-1]))

    def _default(s, k):
        t = St()
        return s.harr(t, k)

    # ------------------------------------------------------------ statements
    def exec(s, n, st):
        if s.deadline and time.time() > s.deadline:
            raise Unsupported('time budget exhausted')
        m = getattr(s, 'x_' + n.kind, None)
        if m is not None: return m(n, st)
        # expression statement
        return [Out('fall', t) for _, t in s.ev(n, st)]

    def x_Null(s, n, st): return [Out('fall', st)]
    x_NullStmt = x_Null

    def x_CompoundStmt(s, n, st):
        labels = {}
        for i, c in enumerate(n.ch):
            if c.kind == 'LabelStmt': labels[c.a['label']] = i
        done = []
        work = [(0, [st])]
        pending = {}      # index -> states
        i = 0
        cur = [st]
        while i < len(n.ch):
            if i in pending:
                cur = cur + pending.pop(i)
            if not cur:
                i += 1; continue
            nxt = []
            for t in cur:
                for o in s.exec(n.ch[i], t):
                    if o.k == 'fall': nxt.append(o.st)
                    elif isinstance(o.k, tuple) and o.k[1] in labels and labels[o.k[1]] > i:
                        pending.setdefault(labels[o.k[1]], []).append(o.st)
                    else: done.append(o)
            if len(nxt) > s.merge_threshold:
                nxt = [o.st for o in s.merge([Out('fall', t) for t in nxt])]
            if len(nxt) + len(done) > s.maxstates:
                raise Unsupported('path explosion (%d)' % len(nxt))
            cur = nxt
            i += 1
        return done + [Out('fall', t) for t in cur]

    onback = None       # contract of a jump back to a label
    def x_LabelStmt(s, n, st):
        s.labelenv.setdefault((st.frame, n.a['label']), dict((k, v) for k, v in st.env.items() if k[0] == st.frame))
        return s.exec(n.ch[0], st)

    def x_GotoStmt(s, n, st):
        return [Out(('goto', n.a['label']), st)]

    def x_DeclStmt(s, n, st):
        sts = [st]
        for v in n.ch:
            if v.kind != 'VarDecl': continue
            nxt = []
            for t in sts:
                key = (t.frame, v.a['id'])
                if v.a.get('storage') == 'static':
                    raise Unsupported('static local')
                ty = strip(v.ty)
                if recof(ty) or ty.endswith(']'):
                    a = fresh('loc_' + v.a['name'], I)
                    s.freshobj(t, a)
                    t.env[key] = a
                    init = [c for c in v.ch if c.kind not in ('Null',)]
                    if recof(ty) and recof(ty).endswith('q') and 'tqh_first' in s.prog.structure.get(recof(ty), {}):
                        if init: s.wr(t, ('len', recof(ty)), a, z3.IntVal(0))
                    elif init and init[0].kind == 'StringLiteral':
                        m = re.search(r'\[(\d+)\]$', ty)
                        if m: s.locarr[a.get_id()] = (a, int(m.group(1)))
                        s.initstr(t, a, init[0])
                    elif init and init[0].kind == 'InitListExpr':
                        pass
                    nxt.append(t)
                    continue
                if v.ch:
                    for val, t2 in s.ev(v.ch[0], t):
                        t2.env[key] = s.norm(val, ty)
                        nxt.append(t2)
                else:
                    t.env[key] = fresh(v.a['name'], sort_of(ty))
                    s.uninit[t.env[key].get_id()] = t.env[key]
                    nxt.append(t)
            sts = nxt
        return [Out('fall', t) for t in sts]

    def initstr(s, st, a, lit):
        text = cstr(lit.a['value'])
        for i, c in enumerate(text + '\0'):
            s.wr(st, ('mem', 'B8'), a + i, z3.BitVecVal(ord(c) & 255, 8), 'char')

    def norm(s, val, ty):
        if val is not None and z3.is_expr(val) and z3.is_bool(val):
            w = intw(ty)
            if w: return s.tobv(val, w[0])
        return val

    def freshobj(s, st, a):
        """allocation: distinct from every address known so far"""
        s.addfact(st, a > 0)
        s.addfact(st, TAG(a) == 0)
        s.objs[a.get_id()] = (a, s.maxsym(a))
        b = st.gh.get('brk')
        if b is None: b = z3.Int('brk0')
        s.addfact(st, a > b)
        st.gh['brk'] = a

    def x_ReturnStmt(s, n, st):
        if not n.ch: return [Out('return', st, None)]
        return [Out('return', t, v) for v, t in s.ev(n.ch[0], st)]

    def x_BreakStmt(s, n, st): return [Out('break', st)]
    def x_ContinueStmt(s, n, st): return [Out('continue', st)]

    def branch(s, c, st):
        """split st on Bool c -> (true states, false states)"""
        c = z3.simplify(c) if z3.is_expr(c) else c
        if z3.is_true(c): return st, None
        if z3.is_false(c): return None, st
        nc = z3.Not(c)
        ft = s.feasible(st, c)
        ff = s.feasible(st, nc) if ft else True
        if ft and ff:
            a = st; b = st.copy()
            a = st.copy(); a.add(c); b.add(nc)
            return a, b
        if ft:
            st.add(c); return st, None
        st.add(nc)
        return None, st

    def cond(s, n, st):
        """evaluate condition n: list of (True/False, state)"""
        while n.kind in ('ParenExpr',): n = n.ch[0]
        if n.kind == 'ImplicitCastExpr' and n.a['castKind'] in ('IntegralToBoolean', 'PointerToBoolean'):
            return s.cond(n.ch[0], st)
        if n.kind == 'BinaryOperator' and n.a['opcode'] in ('&&', '||'):
            isand = n.a['opcode'] == '&&'
            res = []
            for b, t in s.cond(n.ch[0], st):
                if b == isand: res.extend(s.cond(n.ch[1], t))
                else: res.append((b, t))
            # merge equal outcomes with the same trace
            out = []
            for bb in (True, False):
                g = [Out('fall', t) for b, t in res if b == bb]
                if len(g) > 1: g = s.merge(g)
                out.extend((bb, o.st) for o in g)
            return out
        if n.kind == 'UnaryOperator' and n.a['opcode'] == '!':
            return [(not b, t) for b, t in s.cond(n.ch[0], st)]
        res = []
        for v, t in s.ev(n, st):
            a, b = s.branch(s.tobool(v), t)
            if a is not None: res.append((True, a))
            if b is not None: res.append((False, b))
        return res

    def x_IfStmt(s, n, st):
        ch = n.ch
        c, th = ch[0], ch[1]
        el = ch[2] if n.a.get('hasElse') else None
        res = []
        for b, t in s.cond(c, st):
            if b: res.extend(s.exec(th, t))
            elif el is not None: res.extend(s.exec(el, t))
            else: res.append(Out('fall', t))
        return res

    def x_SwitchStmt(s, n, st):
        body = n.ch[-1]
        res = []
        for v, st in s.ev(n.ch[0], st):
            # flatten cases
            items = []
            def flat(c):
                if c.kind == 'CaseStmt':
                    items.append(('case', s.constval(c.ch[0])))
                    flat(c.ch[-1])
                elif c.kind == 'DefaultStmt':
                    items.append(('default', None)); flat(c.ch[-1])
                else:
                    items.append(('stmt', c))
            if body.kind == 'CompoundStmt':
                for c in body.ch: flat(c)
            else: flat(body)
            vals = [x for k, x in items if k == 'case']
            w = v.size() if z3.is_bv(v) else None
            if z3.is_bool(v): v = s.tobv(v, 32); w = 32
            def eq(x): return v == z3.BitVecVal(x, w)
            # group consecutive labels
            entries = []
            i = 0
            while i < len(items):
                if items[i][0] in ('case', 'default'):
                    labs = []; 
                    while i < len(items) and items[i][0] in ('case', 'default'):
                        labs.append(items[i]); i += 1
                    entries.append((labs, i))
                else: i += 1
            hasdef = False
            starts = []
            for labs, idx in entries:
                isdef = any(k == 'default' for k, _ in labs)
                cs = [x for k, x in labs if k == 'case']
                if isdef:
                    hasdef = True
                    others = [x for x in vals if x not in cs]
                    c = z3.And(*[z3.Not(eq(x)) for x in others]) if others else z3.BoolVal(True)
                else:
                    c = z3.Or(*[eq(x) for x in cs])
                starts.append((c, idx))
            if not hasdef:
                starts.append((z3.And(*[z3.Not(eq(x)) for x in vals]) if vals else z3.BoolVal(True), None))
            for c, idx in starts:
                c = z3.simplify(c)
                if z3.is_false(c) or not s.feasible(st, c): continue
                t = st.copy(); t.add(c)
                if idx is None:
                    res.append(Out('fall', t)); continue
                stmts = [x for k, x in items[idx:] if k == 'stmt']
                comp = N('CompoundStmt', stmts, None, {}, n.line)
                for o in s.exec(comp, t):
                    if o.k == 'break': res.append(Out('fall', o.st))
                    else: res.append(o)
        if len(res) > s.merge_threshold: res = s.merge(res)
        return res

    def constval(s, n):
        while n.kind in ('ConstantExpr', 'ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr'):
            if 'value' in n.a and n.kind == 'ConstantExpr':
                return int(n.a['value'])
            n = n.ch[0]
        if n.kind == 'IntegerLiteral': return int(n.a['value'])
        if n.kind == 'CharacterLiteral': return int(n.a['value'])
        if n.kind == 'DeclRefExpr': return s.prog.enums[n.a['ref'][1]]
        if n.kind == 'UnaryOperator' and n.a['opcode'] == '-': return -s.constval(n.ch[0])
        raise Unsupported('case constant')

    # ----------------------------------------------------------------- loops
    def x_ForStmt(s, n, st):
        init, _, cond, inc, body = n.ch
        res = []
        for o in (s.exec(init, st) if init.kind != 'Null' else [Out('fall', st)]):
            res.extend(s.loop(o.st, cond if cond.kind != 'Null' else None, inc if inc.kind != 'Null' else None, body, n))
        return res

    def x_WhileStmt(s, n, st):
        return s.loop(st, n.ch[0], None, n.ch[-1], n)

    def x_DoStmt(s, n, st):
        body, cond = n.ch[0], n.ch[1]
        if cond.kind != 'Null':
            try:
                if s.constval(cond) == 0:
                    return [Out('fall' if o.k in ('break', 'continue') else o.k, o.st, o.v) for o in s.exec(body, st)]
            except Unsupported:
                pass
        # do B while(C)  ==  B; while(C) B   (no break/continue capture issue: handled by loop())
        res = []
        for o in s.exec(body, st):
            if o.k in ('fall', 'continue'): res.extend(s.loop(o.st, cond, None, body, n))
            elif o.k == 'break': res.append(Out('fall', o.st))
            else: res.append(o)
        return res

    cutall = ()         # members whose tests are never unrolled
    def small(s, cond, st):
        def walk(n): return n.kind == 'MemberExpr' and n.a.get('member') and n.a['member'][1] in s.cutall or any(walk(c) for c in n.ch)
        return not (s.cutall and walk(cond))

    def loop(s, st, cond, inc, body, node):
        import loops
        return loops.run(s, st, cond, inc, body, node)

    # ------------------------------------------------------------ expressions
    def ev(s, n, st):
        m = getattr(s, 'e_' + n.kind, None)
        if m is None: raise Unsupported('expression %s line %s' % (n.kind, n.line))
        return m(n, st)

    def ev1(s, n, st):
        """evaluate where forking is folded by merge if possible"""
        return s.ev(n, st)

    def e_ParenExpr(s, n, st): return s.ev(n.ch[0], st)
    e_ConstantExpr = e_ParenExpr
    def e_IntegerLiteral(s, n, st):
        w = intw(n.ty)
        return [(z3.BitVecVal(int(n.a['value']), w[0]), st)]
    def e_CharacterLiteral(s, n, st):
        return [(z3.BitVecVal(int(n.a['value']), 32), st)]
    def e_FloatingLiteral(s, n, st):
        return [(z3.FPVal(float(n.a['value']), FP), st)]
    def e_StringLiteral(s, n, st):
        return [(s.lit(cstr(n.a['value'])), st)]
    def e_PredefinedExpr(s, n, st):
        return [(s.lit('__func__'), st)]

    def e_UnaryExprOrTypeTraitExpr(s, n, st):
        # sizeof: only sizes that can matter are char arrays
        t = n.a.get('argType') or (n.ch[0].ty if n.ch else 'int')
        m = re.match(r'(?:const )?char\[(\d+)\]', strip(t))
        if m: return [(z3.BitVecVal(int(m.group(1)), 64), st)]
        if is_ptr(t): return [(z3.BitVecVal(8, 64), st)]
        w = intw(t)
        if w: return [(z3.BitVecVal(w[0] // 8, 64), st)]
        v = z3.BitVec('sizeof.' + (recof(t) or 'x'), 64)
        s.addfact(st, z3.And(z3.UGT(v, 0), z3.ULT(v, 4096)))
        return [(v, st)]

    # lvalues ------------------------------------------------------------
    def lv(s, n, st):
        """list of (address, state)"""
        k = n.kind
        if k == 'ParenExpr': return s.lv(n.ch[0], st)
        if k == 'DeclRefExpr':
            kind, name, did = n.a['ref']
            key = (st.frame, did)
            if kind in ('ParmVarDecl', 'VarDecl') and key in st.env or kind == 'ParmVarDecl':
                v = st.env.get(key)
                if recof(n.ty) or (strip(n.ty).endswith(']') and kind == 'VarDecl'):
                    return [(MemAddr(v, n.ty), st)]
                return [(LocalAddr(key), st)]
            if kind == 'VarDecl':
                return [(('global', name), st)]
            raise Unsupported('lvalue ref %s' % name)
        if k == 'MemberExpr':
            mem = n.a.get('member')
            base = n.ch[0]
            res = []
            if n.a.get('isArrow'):
                bs = s.ev(base, st)
            else:
                b = base
                while b.kind == 'ParenExpr': b = b.ch[0]
                bs = []
                for a, t in s.lv(b, st):
                    if isinstance(a, tuple) and a[0] == 'garr' and mem is not None:
                        res.append((('garr', a[1], a[2], list(s.prog.structure[mem[0]]).index(mem[1])), t)); continue
                    bs.append((s.aggaddr(a, t), t))
            for b, t in bs:
                if isinstance(b, FieldAddr): b = s.aggaddr(b, t)
                if isinstance(b, MemAddr): b = b.addr
                if isinstance(b, LocalAddr): b = t.env[b.key]
                if mem is None: raise Unsupported('member of unknown record')
                rec, fn, ty = mem
                if s.check_deref and n.a.get('isArrow'):
                    if not s.syntnonnull(b): s.oblige_deref(t, b, n)
                if fn == '':     # anonymous member: transparent
                    res.append((MemAddr(b, ty), t)); continue
                if fn in ('tqh_first',): res.append((('first', b, rec), t)); continue
                if fn in ('tqe_next',):
                    res.append((('next', b), t)); continue
                res.append((FieldAddr(b, (rec, fn), ty), t))
            return res
        if k == 'UnaryOperator' and n.a['opcode'] == '*':
            res = []
            for v, t in s.ev(n.ch[0], st):
                if isinstance(v, (LocalAddr, FieldAddr)): res.append((v, t))
                elif isinstance(v, MemAddr): res.append((v, t))
                else: res.append((MemAddr(v, n.ty), t))
            return res
        if k == 'ArraySubscriptExpr':
            res = []
            b0 = n.ch[0]
            g = s.globalarr(b0)
            for iv, t in s.ev(n.ch[1], st):
                if g is not None:
                    res.append((('garr', g, iv), t)); continue
                for bv, t2 in s.ev(b0, t):
                    if isinstance(bv, (FieldAddr,)): raise Unsupported('index field addr')
                    res.append((MemAddr(s.padd(bv, iv, n.ch[1].ty, n.ty), n.ty), t2))
            return res
        if k == 'ImplicitCastExpr' and n.a['castKind'] in ('NoOp',):
            return s.lv(n.ch[0], st)
        if k == 'CStyleCastExpr': return s.lv(n.ch[0], st)
        raise Unsupported('lvalue %s' % k)

    def syntnonnull(s, b):
        return z3.is_app(b) and b.decl().name().startswith('off.')

    def oblige_deref(s, st, b, n):
        key = ('nn', b.get_id())
        if s.proves(st, b != 0, 3000):
            s.obl.append({'fn': s.fn, 'name': 'deref', 'ok': True, 'res': 'unsat', 't': 0, 'info': '', 'line': n.line})
        else:
            s.oblige(st, b != 0, 'null dereference at line %s' % n.line, n.line)
        st.add(b != 0)

    def aggaddr(s, a, st):
        """address term of an aggregate lvalue"""
        if isinstance(a, MemAddr): return a.addr
        if isinstance(a, FieldAddr):
            return s.off(st, a.fk[0], a.fk[1], a.base)
        if isinstance(a, LocalAddr): return st.env[a.key]
        raise Unsupported('aggregate address')

    def globalarr(s, n):
        while n.kind in ('ParenExpr', 'ImplicitCastExpr'): n = n.ch[0]
        if n.kind == 'DeclRefExpr' and n.a['ref'][0] == 'VarDecl':
            nm = n.a['ref'][1]
            for key in ((s.curfile, nm),):
                if key in s.prog.globals: return key
            c = [k for k in s.prog.globals if k[1] == nm]
            if len(c) == 1 and not True: return c[0]
        return None

    def padd(s, base, iv, ity, ety):
        if isinstance(base, MemAddr): base = base.addr
        w = intw(ity)
        if s.uidx and esize(ety) != 1 and z3.is_bv(iv):
            return z3.Function('elem%d.%d' % (esize(ety), iv.size()), I, iv.sort(), I)(base, iv)
        if z3.is_bv(iv): i = z3.BV2Int(iv, is_signed=bool(w and w[1]))
        else: i = iv
        i = z3.simplify(i)
        return base + i * esize(ety) if esize(ety) != 1 else base + i

    def memkey(s, ty):
        so = sort_of(ty)
        if so == B8: return ('mem', 'B8')
        return ('mem', str(so) + (strip(ty) if so == I else ''))

    def load(s, a, ty, st):
        if isinstance(a, LocalAddr): return st.env[a.key]
        if isinstance(a, FieldAddr):
            if recof(a.ty): return s.aggaddr(a, st)
            if strip(a.ty).endswith(']'): return s.aggaddr(a, st)
            v = s.rd(st, a.fk, a.base, a.ty)
            s.typefact(st, a.ty, v)
            return v
        if isinstance(a, MemAddr):
            if recof(ty) or strip(ty).endswith(']'): return a.addr
            if z3.is_int_value(z3.simplify(a.addr)) and sort_of(ty) == B8:
                pass
            return s.rdmem(st, a.addr, ty)
        if isinstance(a, tuple) and a[0] == 'first': return s.qfirst(st, a[1], a[2])
        if isinstance(a, tuple) and a[0] == 'garr': return s.garr(st, *a[1:])
        if isinstance(a, tuple) and a[0] == 'global':
            nm = a[1]
            if nm in ('stdin', 'stdout', 'stderr'): return z3.Int(nm)
            key = (s.curfile, nm)
            if strip(ty).endswith(']'): return z3.Int('glob.' + nm)
            return z3.Const('glob.' + nm, sort_of(ty))
        raise Unsupported('load')

    def rdmem(s, st, addr, ty):
        # characters of string literals
        if sort_of(ty) == B8:
            for text, la in s.lits.items():
                pass
        return s.rd(st, s.memkey(ty), addr, ty)

    sentinel = False    # enum-typed fields may hold the number of enumerators
    def typefact(s, st, ty, v):
        t = strip(ty)
        if t.startswith('enum '):
            es = s.prog.enumof.get(t[5:])
            if es and es[-1][0].endswith('__MAX'):
                s.addfact(st, z3.ULE(v, es[-1][1]) if s.sentinel else z3.ULT(v, es[-1][1]))
            elif es:
                s.addfact(st, z3.ULE(v, max(x for _, x in es)))
            s.assumptions.add('enum-typed fields hold declared enumerators')

    def store(s, a, ty, v, st):
        if isinstance(a, LocalAddr):
            st.env[a.key] = s.norm(v, ty); return
        if isinstance(a, FieldAddr):
            r = recof(a.ty)
            if r: raise Unsupported('aggregate store')
            if isinstance(v, LocalAddr) and s.escape:
                # only ever read through: a name for the local
                s.assumptions.add('pointers to locals stored in structures are not written through')
                v = z3.Int('addr.%s.%s' % v.key); s.addfact(st, v != 0)
            if isinstance(v, (LocalAddr, FieldAddr, MemAddr)): raise Unsupported('escaping local address')
            s.wr(st, a.fk, a.base, s.norm(v, a.ty), a.ty); return
        if isinstance(a, MemAddr):
            if isinstance(v, (LocalAddr, FieldAddr, MemAddr)): raise Unsupported('escaping local address')
            if recof(ty): raise Unsupported('aggregate store')
            s.wr(st, s.memkey(ty), a.addr, s.norm(v, ty), ty); return
        raise Unsupported('store to %s' % (a,))

    def copyagg(s, st, rec, dst, src):
        for f, ty in s.prog.structure[rec].items():
            if recof(ty):
                if f.startswith('#'): s.copyagg(st, recof(ty), dst, src)
                elif 'tqh_first' in s.prog.structure.get(recof(ty), {}) or 'tqe_next' in s.prog.structure.get(recof(ty), {}):
                    raise Unsupported('copy of a queue')
                else: s.copyagg(st, recof(ty), s.off(st, rec, f, dst), s.off(st, rec, f, src))
            else:
                s.wr(st, (rec, f), dst, s.rd(st, (rec, f), src, ty), ty)

    def garr(s, st, key, iv, field=None):
        """element of a constant global array, or a member of it"""
        g = s.prog.globals[key]
        init = [c for c in g.ch if c.kind == 'InitListExpr']
        if not init: raise Unsupported('global array ' + key[1])
        els = init[0].ch
        els = [e for e in els]
        if z3.is_bv(iv):
            s.oblige_q(st, z3.ULT(iv, len(els)), 'index of %s in bounds' % key[1])
        vals = []
        for e in els:
            if field is not None and e.kind == 'InitListExpr': e = e.ch[field]
            if e.kind == 'ImplicitValueInitExpr':
                vals.append(None); continue
            r = s.ev(e, st)
            vals.append(r[0][0])
        iv = z3.simplify(iv)
        if z3.is_bv_value(iv):
            v = vals[iv.as_long()]
            return v if v is not None else z3.IntVal(0)
        v0 = [x for x in vals if x is not None][0]
        zero = z3.IntVal(0) if z3.is_int(v0) else z3.BitVecVal(0, v0.size())
        r = vals[-1] if vals[-1] is not None else zero
        for i in range(len(vals) - 2, -1, -1):
            r = z3.If(iv == i, vals[i] if vals[i] is not None else zero, r)
        return r

    def oblige_q(s, st, goal, name):
        if s.proves(st, goal, 4000):
            s.obl.append({'fn': s.fn, 'name': name, 'ok': True, 'res': 'unsat', 't': 0, 'info': '', 'line': None})
        else:
            s.oblige(st, goal, name)

    # rvalues ------------------------------------------------------------
    def e_DeclRefExpr(s, n, st):
        kind, name, did = n.a['ref']
        if kind == 'EnumConstantDecl':
            return [(z3.BitVecVal(s.prog.enums[name], 32), st)]
        if kind == 'FunctionDecl':
            return [(('fn', name), st)]
        return [(s.load(a, n.ty, t), t) for a, t in s.lv(n, st)]

    def e_MemberExpr(s, n, st):
        return [(s.loadm(a, n, t), t) for a, t in s.lv(n, st)]

    def loadm(s, a, n, st):
        if isinstance(a, tuple) and a[0] == 'next':
            b = n.ch[0]
            while b.kind == 'ParenExpr': b = b.ch[0]
            # b is MemberExpr elm->entries
            link = b.a['name']
            raise Unsupported('next')
        return s.load(a, n.ty, st)

    def e_ImplicitCastExpr(s, n, st):
        ck = n.a['castKind']
        c = n.ch[0]
        if ck == 'LValueToRValue':
            # NEXT: MemberExpr(tqe_next, MemberExpr(entries, elm))
            b = c
            while b.kind == 'ParenExpr': b = b.ch[0]
            if b.kind == 'MemberExpr' and b.a.get('name') == 'tqe_next':
                en = b.ch[0]
                while en.kind == 'ParenExpr': en = en.ch[0]
                E, link, _ = en.a['member']
                res = []
                el = en.ch[0]
                for v, t in (s.ev(el, st) if en.a.get('isArrow') else [(s.aggaddr(a, t), t) for a, t in s.lv(el, st)]):
                    res.append((s.qnext(t, v, E, link), t))
                return res
            return [(s.load(a, c.ty, t), t) for a, t in s.lv(c, st)]
        if ck in ('NoOp', 'BitCast', 'FunctionToPointerDecay'):
            return s.ev(c, st)
        if ck == 'NullToPointer': return [(z3.IntVal(0), st)]
        if ck == 'ArrayToPointerDecay':
            b = c
            while b.kind == 'ParenExpr': b = b.ch[0]
            if b.kind in ('StringLiteral', 'PredefinedExpr'): return s.ev(b, st)
            res = []
            for a, t in s.lv(b, st):
                if isinstance(a, tuple) and a[0] == 'global':
                    res.append((z3.Int('glob.' + a[1]), t))
                elif isinstance(a, MemAddr): res.append((a.addr, t))
                else: res.append((s.aggaddr(a, t), t))
            return res
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'IntegralToPointer', 'PointerToIntegral'):
            return [(s.cast(v, c.ty, n.ty), t) for v, t in s.ev(c, st)]
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return [(s.tobool(v), t) for v, t in s.ev(c, st)]
        if ck == 'ToVoid':
            return [(None, t) for v, t in s.ev(c, st)]
        raise Unsupported('cast ' + ck)
    e_CStyleCastExpr = e_ImplicitCastExpr

    def pure(s, n):
        if n.kind in ('CallExpr', 'CompoundAssignOperator', 'StmtExpr'): 
            return False
        if n.kind == 'BinaryOperator' and n.a['opcode'] in ('=', ','): return False
        if n.kind == 'UnaryOperator' and n.a['opcode'] in ('++', '--'): return False
        return all(s.pure(c) for c in n.ch)

    def e_ConditionalOperator(s, n, st):
        if s.pure(n.ch[1]) and s.pure(n.ch[2]):
            res = []
            for c, t in s.evbool(n.ch[0], st):
                c = z3.simplify(c)
                if z3.is_true(c): res.extend(s.ev(n.ch[1], t)); continue
                if z3.is_false(c): res.extend(s.ev(n.ch[2], t)); continue
                n0 = len(t.pc)
                r1 = s.ev(n.ch[1], t); 
                if len(r1) != 1: raise Unsupported('fork in pure ?:')
                r2 = s.ev(n.ch[2], r1[0][1])
                v1, v2 = r1[0][0], r2[0][0]
                if z3.is_bool(v1) and not z3.is_bool(v2): v1 = s.tobv(v1, v2.size())
                if z3.is_bool(v2) and not z3.is_bool(v1): v2 = s.tobv(v2, v1.size())
                if not (z3.is_expr(v1) and z3.is_expr(v2)): raise Unsupported('?: on addresses')
                res.append((z3.If(c, v1, v2), r2[0][1]))
            return res
        res = []
        for b, t in s.cond(n.ch[0], st):
            res.extend(s.ev(n.ch[1] if b else n.ch[2], t))
        return res

    def evbool(s, n, st):
        if s.pure(n):
            return [(s.tobool(v), t) for v, t in s.ev(n, st)]
        return [(z3.BoolVal(b), t) for b, t in s.cond(n, st)]

    def e_UnaryOperator(s, n, st):
        op = n.a['opcode']
        c = n.ch[0]
        if op == '&':
            res = []
            b = c
            while b.kind == 'ParenExpr': b = b.ch[0]
            for a, t in s.lv(b, st):
                if isinstance(a, FieldAddr) and (recof(a.ty) or strip(a.ty).endswith(']')):
                    res.append((s.aggaddr(a, t), t))
                elif isinstance(a, MemAddr) and not isinstance(a, LocalAddr):
                    res.append((a.addr, t))
                elif isinstance(a, tuple): raise Unsupported('& of %s' % (a,))
                else: res.append((a, t))
            return res
        if op == '*':
            return [(s.load(a, n.ty, t), t) for a, t in s.lv(n, st)]
        if op == '!':
            return [(z3.Not(s.tobool(v)), t) for v, t in s.ev(c, st)]
        if op == '-':
            return [(z3.fpNeg(v) if z3.is_fp(v) else -s.tobv(v, 32), t) for v, t in s.ev(c, st)]
        if op == '+': return s.ev(c, st)
        if op == '~': return [(~s.tobv(v, 32), t) for v, t in s.ev(c, st)]
        if op in ('++', '--'):
            res = []
            for a, t in s.lv(c, st):
                old = s.load(a, c.ty, t)
                if z3.is_int(old):
                    d = esize(pointee(c.ty)); new = old + d if op == '++' else old - d
                else:
                    new = old + 1 if op == '++' else old - 1
                    if s.check_ovf and intw(c.ty)[1]:
                        s.ovf(t, '+' if op == '++' else '-', old, z3.BitVecVal(1, old.size()), n)
                s.store(a, c.ty, new, t)
                res.append((old if n.a.get('isPostfix') else new, t))
            return res
        if op == '__extension__': return s.ev(c, st)
        raise Unsupported('unary ' + op)

    def ovf(s, st, op, x, y, n):
        if op == '+': g = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
        elif op == '-': g = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
        elif op == '*': g = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
        else: return
        s.oblige(st, g, 'signed overflow at line %s' % n.line, n.line)

    def e_BinaryOperator(s, n, st):
        op = n.a['opcode']
        l, r = n.ch
        if op == '=':
            res = []
            rec = recof(n.ty)
            if rec:
                for a, t in s.lv(l, st):
                    da = s.aggaddr(a, t)
                    rr = r
                    while rr.kind in ('ParenExpr',) or (rr.kind == 'ImplicitCastExpr' and rr.a['castKind'] in ('LValueToRValue', 'NoOp')): rr = rr.ch[0]
                    for b, t2 in s.lv(rr, t):
                        s.copyagg(t2, rec, da, s.aggaddr(b, t2)); res.append((None, t2))
                return res
            for v, t in s.ev(r, st):
                for a, t2 in s.lv(l, t):
                    s.store(a, l.ty, v, t2)
                    res.append((v, t2))
            return res
        if op == ',':
            res = []
            for _, t in s.ev(l, st): res.extend(s.ev(r, t))
            return res
        if op in ('&&', '||'):
            if s.pure(l) and s.pure(r):
                res = []
                for a, t in s.ev(l, st):
                    for b, t2 in s.ev(r, t):
                        res.append((z3.And(s.tobool(a), s.tobool(b)) if op == '&&' else z3.Or(s.tobool(a), s.tobool(b)), t2))
                return res
            return [(z3.BoolVal(b), t) for b, t in s.cond(n, st)]
        res = []
        for a, t in s.ev(l, st):
            for b, t2 in s.ev(r, t):
                res.append((s.binop(op, a, b, l.ty, r.ty, n, t2), t2))
        return res

    def binop(s, op, a, b, lt, rt, n, st):
        if op in ('==', '!='):
            if s.escape:
                a, b = [z3.Int('addr.%s.%s' % x.key) if isinstance(x, LocalAddr) else x for x in (a, b)]
            if isinstance(a, LocalAddr) or isinstance(b, LocalAddr) or isinstance(a, (FieldAddr, MemAddr)) or isinstance(b, (FieldAddr, MemAddr)):
                if isinstance(a, LocalAddr) and isinstance(b, LocalAddr): e = z3.BoolVal(a.key == b.key)
                elif any(z3.is_expr(x) and z3.is_int_value(x) and x.as_long() == 0 for x in (a, b)): e = z3.BoolVal(False)
                else: e = z3.BoolVal(False)
            else:
                if z3.is_bool(a) and z3.is_bool(b): e = a == b
                elif z3.is_bool(a): 
                    e = s.tobv(a, b.size()) == b
                elif z3.is_bool(b): e = a == s.tobv(b, a.size())
                elif z3.is_fp(a): e = z3.fpEQ(a, b)
                else: e = a == b
            return e if op == '==' else z3.Not(e)
        if isinstance(a, (LocalAddr, FieldAddr, MemAddr)) or isinstance(b, (LocalAddr, FieldAddr, MemAddr)):
            raise Unsupported('arith on address')
        if z3.is_int(a) or z3.is_int(b):     # pointers
            if z3.is_int(a) and z3.is_int(b):
                if op == '<': return a < b
                if op == '>': return a > b
                if op == '<=': return a <= b
                if op == '>=': return a >= b
                if op == '-':
                    return z3.Int2BV((a - b) if esize(pointee(lt)) == 1 else (a - b) / esize(pointee(lt)), 64)
            if op in ('+', '-'):
                if z3.is_int(b): a, b, lt, rt = b, a, rt, lt
                d = z3.simplify(z3.BV2Int(b, is_signed=bool(intw(rt)[1])))
                k = esize(pointee(lt))
                if k != 1: d = d * k
                return a + d if op == '+' else a - d
            raise Unsupported('pointer op ' + op)
        if z3.is_fp(a) or z3.is_fp(b):
            f = {'<': z3.fpLT, '>': z3.fpGT, '<=': z3.fpLEQ, '>=': z3.fpGEQ}.get(op)
            if f: return f(a, b)
            g = {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}.get(op)
            if g: return g(z3.RNE(), a, b)
            raise Unsupported('fp ' + op)
        w = intw(lt) or (32, True)
        if z3.is_bool(a): a = s.tobv(a, b.size() if z3.is_bv(b) else w[0])
        if z3.is_bool(b): b = s.tobv(b, a.size())
        sg = w[1]
        if op in ('<<', '>>'):
            if b.size() < a.size(): b = z3.ZeroExt(a.size() - b.size(), b)
            elif b.size() > a.size(): b = z3.Extract(a.size() - 1, 0, b)
            if op == '<<': return a << b
            return (a >> b) if sg else z3.LShR(a, b)
        if op == '+':
            if s.check_ovf and sg: s.ovf(st, op, a, b, n)
            return a + b
        if op == '-':
            if s.check_ovf and sg: s.ovf(st, op, a, b, n)
            return a - b
        if op == '*':
            if s.check_ovf and sg: s.ovf(st, op, a, b, n)
            return a * b
        if op == '/': return (a / b) if sg else z3.UDiv(a, b)
        if op == '%': return z3.SRem(a, b) if sg else z3.URem(a, b)
        if op == '&': return a & b
        if op == '|': return a | b
        if op == '^': return a ^ b
        if op == '<': return (a < b) if sg else z3.ULT(a, b)
        if op == '>': return (a > b) if sg else z3.UGT(a, b)
        if op == '<=': return (a <= b) if sg else z3.ULE(a, b)
        if op == '>=': return (a >= b) if sg else z3.UGE(a, b)
        raise Unsupported('binop ' + op)

    def e_CompoundAssignOperator(s, n, st):
        op = n.a['opcode'][:-1]
        l, r = n.ch
        res = []
        for v, t in s.ev(r, st):
            for a, t2 in s.lv(l, t):
                old = s.load(a, l.ty, t2)
                x, y = old, v
                if z3.is_bv(x) and z3.is_bv(y) and op not in ('<<', '>>'):
                    w = max(x.size(), y.size(), 32)
                    lw, rw = intw(l.ty), intw(r.ty)
                    def ext(q, tw): return q if q.size() == w else (z3.SignExt(w - q.size(), q) if tw and tw[1] else z3.ZeroExt(w - q.size(), q))
                    xx, yy = ext(x, lw), ext(y, rw)
                    nv = s.binop(op, xx, yy, l.ty, r.ty, n, t2)
                    if nv.size() > x.size(): nv = z3.Extract(x.size() - 1, 0, nv)
                else:
                    nv = s.binop(op, x, y, l.ty, r.ty, n, t2)
                s.store(a, l.ty, nv, t2)
                res.append((nv, t2))
        return res

    def e_StmtExpr(s, n, st):
        outs = s.exec(n.ch[0], st)
        return [(None, o.st) for o in outs if o.k == 'fall']

    def e_VAArgExpr(s, n, st): raise Unsupported('va_arg')
    def e_InitListExpr(s, n, st): raise Unsupported('init list')

    # calls ---------------------------------------------------------------
    def e_CallExpr(s, n, st):
        cal = n.ch[0]
        while cal.kind in ('ImplicitCastExpr', 'ParenExpr'): cal = cal.ch[0]
        if cal.kind != 'DeclRefExpr' or cal.a['ref'][0] != 'FunctionDecl':
            raise Unsupported('indirect call line %s' % n.line)
        name = cal.a['ref'][1]
        argn = n.ch[1:]
        states = [([], st)]
        for an in argn:
            nxt = []
            for vs, t in states:
                for v, t2 in s.ev(an, t): nxt.append((vs + [v], t2))
            states = nxt
        res = []
        for vs, t in states:
            if name in s.con:
                res.extend(s.con[name](s, t, vs, n))
                continue
            fd = s.prog.find(name, s.curfile)
            if fd is not None:
                if any(f == fd.name for f in getattr(s, 'stack', [])):
                    raise Unsupported('recursion into %s without a contract' % name)
                s.inlined.add(name)
                s.stack = getattr(s, 'stack', []) + [fd.name]
                try: res.extend(s.call_function(fd, vs, t))
                finally: s.stack = s.stack[:-1]
                continue
            import libc
            if name in libc.TABLE:
                res.extend(libc.TABLE[name](s, t, vs, n)); continue
            c = s.anyext(name) if s.anyext else None
            if c: res.extend(c(s, t, vs, n)); continue
            raise Unsupported('no contract for external %s' % name)
        return res

TAG = z3.Function('addrtag', I, I)

FLT = z3.Function('float', FP, FP)       # rounding to single precision: left uninterpreted
def esize(t):
    t = strip(t)
    if is_ptr(t): return 8
    w = intw(t)
    if w: return w[0] // 8
    return 64 if recof(t) else 1

def cstr(v):
    """decode clang's printed string literal"""
    import ast
    parts = re.findall(r'"((?:[^"\\]|\\.)*)"', v, re.S)
    out = ''
    for p in parts:
        i = 0
        while i < len(p):
            c = p[i]
            if c == '\\':
                d = p[i + 1]
                m = {'n': '\n', 't': '\t', 'r': '\r', '\\': '\\', '"': '"', "'": "'", 'f': '\f', 'b': '\b', 'v': '\v', 'a': '\a', '?': '?'}
                if d in m: out += m[d]; i += 2; continue
                mm = re.match(r'[0-7]{1,3}', p[i + 1:])
                if mm: out += chr(int(mm.group(0), 8)); i += 1 + len(mm.group(0)); continue
                if d == 'x':
                    mm = re.match(r'[0-9a-fA-F]+', p[i + 2:]); out += chr(int(mm.group(0), 16)); i += 2 + len(mm.group(0)); continue
            out += c; i += 1
    return out
