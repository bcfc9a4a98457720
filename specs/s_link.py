"""the linker: aliases (P16)"""
from common import *
import libc
LA = 'linker_aliases.c'
COUNT = 'al.count'        # how many aliases there are so far
def number(eng, chunks):
    """_abc as a number in base 26: (number, digits are letters)"""
    if not chunks or chunks[0][0] != 'lit' or chunks[0][1][:1] != '_': return None
    cs = [ord(c) for c in chunks[0][1][1:]]
    ds = [z3.BitVecVal(c, 64) for c in cs]
    for c in chunks[1:]:
        if c[0] == 'lit': ds += [z3.BitVecVal(ord(x), 64) for x in c[1]]
        elif c[0] == 'chr': ds.append(z3.ZeroExt(56, z3.Extract(7, 0, c[1])))
        else: return None
    if not ds: return None
    v = z3.BitVecVal(0, 64)
    for x in ds: v = v * 26 + (x - 97)
    return v, z3.And(*[z3.And(z3.UGE(x, 97), z3.ULE(x, 122)) for x in ds]), ds
def a_asprintf(eng, st, a, n):
    """an alias is the count of aliases before it, written in letters; so no two are alike"""
    libc.used(eng, 'asprintf')
    fmt = libc.lit_of(eng, a[1])
    if fmt is None: raise Unsupported('non-literal format')
    ch = libc.chunks_of(eng, st, fmt, a[2:], None)
    if isinstance(a[0], FieldAddr) and a[0].fk[1] == 'alias':
        r = number(eng, ch)
        g = st.gh[COUNT]
        if r is None: eng.oblige(st, z3.BoolVal(False), 'the alias is an underscore and letters', n.line)
        else:
            v, letters, ds = r
            eng.oblige(st, letters, 'the alias is an underscore and letters', n.line)
            eng.oblige(st, v == g, 'the alias is the number of aliases before it', n.line)
        st.gh[COUNT] = g + 1
    return libc.asprintf(eng, st, a, n)
def leaves(v, g=z3.BoolVal(True)):
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        for x in leaves(v.arg(1), z3.And(g, v.arg(0))): yield x
        for x in leaves(v.arg(2), z3.And(g, z3.Not(v.arg(0)))): yield x
    else: yield g, v
def a_create(prior0):
    def f(eng, st, a, n):
        """the recursion, for the structure a field of this one embeds"""
        cfg, orig, p, offs, al = a
        g = st.gh[COUNT]
        eng.oblige(st, eng.rdmem(st, offs, 'unsigned long') == g, 'the count is passed on', n.line)
        h = eng.off(st, 'strct', 'aq', orig)
        l = eng.qlen(st, h, 'aliasq')
        eng.oblige(st, z3.And(l > 0, z3.Select(eng.rd(st, ('at', 'aliasq'), h), l - 1) == al), 'the alias is added to those of the structure', n.line)
        # its name
        fld = None
        for w, x in leaves(eng.rd(st, ('alias', 'name'), al)):
            pr, fn = None, None
            fo = eng.strform.get(x.get_id())
            if fo is not None:
                ch = fo[1]
                if len(ch) == 3 and ch[0][0] == 'str' and ch[1] == ('lit', '.') and ch[2][0] == 'str': pr, fn = ch[0][1], ch[2][1]
                elif len(ch) == 1 and ch[0][0] == 'str': fn = ch[0][1]
            else:
                for c in st.pc:
                    if z3.is_eq(c) and c.arg(0).eq(S2(x)) and z3.is_app(c.arg(1)) and c.arg(1).num_args() == 1: fn = c.arg(1).arg(0)
            if fn is None or not z3.is_app_of(fn, z3.Z3_OP_SELECT):
                eng.oblige(st, z3.Not(w), 'the name of the alias is that of the field', n.line); continue
            y = fn.arg(1)
            eng.oblige(st, z3.Implies(w, fn == eng.rd(st, ('field', 'name'), y)), 'the name of the alias is that of the field', n.line)
            if pr is None: eng.oblige(st, z3.Implies(w, prior0 == 0), 'nested fields are named by their path', n.line)
            else: eng.oblige(st, z3.Implies(w, z3.And(prior0 != 0, pr == eng.rd(st, ('alias', 'name'), prior0))), 'nested fields are named by their path', n.line)
            t = eng.rd(st, ('ref', 'target'), eng.rd(st, ('field', 'ref'), y))
            eng.oblige(st, z3.Implies(w, p == eng.rd(st, ('field', 'parent'), t)), 'the aliases of the structure the field refers to', n.line)
            fld = y if fld is None or fld.eq(y) else z3.If(w, y, fld)
        t = either(st)
        k = fresh('n', z3.BitVecSort(64))
        st.pc.append(z3.UGE(k, g)); st.gh[COUNT] = k
        eng.wr(st, eng.memkey('unsigned long'), offs, k, 'unsigned long')
        l2 = fresh('len', I); st.pc.append(l2 >= l)
        eng.wr(st, ('len', 'aliasq'), h, l2); eng.wr(st, ('at', 'aliasq'), h, fresh('at', z3.ArraySort(I, I)))
        if fld is not None: st.emit(('call', 'aliases', (orig, fld)))
        return [(z3.BitVecVal(0, 32), t), (z3.BitVecVal(1, 32), st)]
    return f
def counted(offs):
    def h(cut):
        if ('g', COUNT) not in cut.vars: return []
        return [('count', lambda t, ix: cut.eng.rdmem(t, offs, 'unsigned long') == t.gh[COUNT])]
    return h
@proof('linker_aliases:linker_aliases_create', LA, ['linker_aliases_create'], dict(gen_err=quiet, gen_errx=quiet, asprintf=a_asprintf), qfeas=False, uidx=True)
def aliases_create(mk):
    e = mk()
    fd, v, st = e.start('linker_aliases_create', LA)
    e.con['linker_aliases_create'] = a_create(v[4])
    e.hints = (counted(v[3]),)
    g = z3.BitVec('count', 64)
    st.gh[COUNT] = g
    st.pc += [v[1] != 0, v[2] != 0, v[3] != 0, e.rdmem(st, v[3], 'unsigned long') == g]
    d0 = D(e, [], [])
    refs = d0.forall('fieldq', d0.rd(v[2], 'strct', 'fq'), lambda x: z3.Implies(d0.is_(x, 'field', 'type', 'FTYPE_STRUCT'), d0.rd(x, 'field', 'ref') != 0))
    st.pc += d0.s0.pc + [refs]
    entry = list(st.pc); n = 0
    for val, s in e.runfn(fd, v, st):
        s.pc.append(val != 0)
        if not e.feasible(s): continue
        n += 1
        e.oblige(s, e.rdmem(s, v[3], 'unsigned long') == s.gh[COUNT], 'the count is that of the aliases')
        e.oblige(s, z3.UGE(s.gh[COUNT], g), 'the count never decreases')
        def want(d):
            def one(d, x, i):
                d.when(d.is_(x, 'field', 'type', 'FTYPE_STRUCT'), lambda d: d.call('aliases', v[1], x))
            d.each('fieldq', d.rd(v[2], 'strct', 'fq'), one)
        for d, _ in explore(e, s.pc, None):
            want(d)
            d.final = s; d.declared = list(entry)
            try: compare(d, s.tr.items(), d.out, 'linker_aliases_create'); good, why = True, ''
            except Mismatch as m: good, why = e.check(d.pc + d.s0.pc, 4000)[0] == z3.unsat, str(m)
            e.obl.append(dict(fn='linker_aliases_create', name='each nested structure gets an alias', ok=good, res='unsat' if good else 'failed', t=0, info=why, line=None))
    if not n: e.obl.append(dict(fn='linker_aliases_create', name='vacuity', ok=False, res='failed', t=0, info='no path', line=None))

# ---------------------------------------------------------------- searches
def p_unique(d, cfg, srch):
    """some unique clause of the structure has all its fields compared for equality"""
    return d.exists('uniqueq', d.rd(d.rd(srch, 'search', 'parent'), 'strct', 'nq'), lambda u: p_clause(d, srch, u))
def p_clause(d, srch, u):
        return d.forall('nrefq', d.rd(u, 'unique', 'nq'), lambda r: d.exists('sentq', d.rd(srch, 'search', 'sntq'), lambda s:
            z3.And(d.is_(s, 'sent', 'op', 'OPTYPE_EQUAL'), d.rd(s, 'sent', 'field') == d.rd(r, 'nref', 'field'))))
@proof('linker_aliases:check_search_unique', LA, ['check_search_unique'], {}, qfeas=False, asserts=False, hints=(none_before('uniqueq', lambda d, u: p_clause(d, z3.Const('srch', I), u)),))
def unique_search(mk):
    e = mk()
    fd, v, st = e.start('check_search_unique', LA)
    n = 0
    for val, s in e.runfn(fd, v, st):
        if not e.feasible(s): continue
        n += 1
        d = D(e, [], [])
        g = p_unique(d, *v)
        s.pc += d.s0.pc
        e.oblige(s, (val != 0) == g, 'a search is unique iff it compares all fields of a unique clause')
    if not n: e.obl.append(dict(fn='check_search_unique', name='vacuity', ok=False, res='failed', t=0, info='no path', line=None))

def named(d, p, R, x):
    """x, if it names a path, has the alias of that path"""
    aq = d.rd(p, 'strct', 'aq')
    low = lambda a: d.eng.lower(d.eng.content(a))
    return z3.Implies(d.rd(x, R, 'name') != 0, d.exists('aliasq', aq, lambda a: z3.And(d.rd(x, R, 'alias') == a, low(d.rd(a, 'alias', 'name')) == low(d.rd(x, R, 'name')))))
def sofar(cut):
    if not cut.iter or cut.iter[0] != 'list': return []
    _, k, h, R = cut.iter
    if R not in ('sentq', 'ordq'): return []
    rec = R[:-1]
    def f(t, ix):
        d = D_at(cut.eng, t)
        j = fresh('ix', I)
        x = d.at(R, h, j)
        n = len(d.s0.pc)
        b = d.closefacts(n, j, named(d, z3.Const('theparent', I), rec, x))
        return upto(j, ix, b, x)
    def u(t, ix):
        d = D(cut.eng, [], [])
        srch = z3.Const('srch', I)
        j = fresh('ix', I)
        x = d.at(R, h, j)
        n = len(d.s0.pc)
        b = d.closefacts(n, j, equal_unique(d, x))
        return D_at(cut.eng, t).rd(srch, 'search', 'flags') == flagged(d, srch, z3.Exists([j], z3.And(j >= 0, j < ix, b), patterns=[x]))
    return [('aliased', f)] + ([('flagged', u)] if R == 'sentq' else [])
def equal_unique(d, x):
    return z3.And(d.flag(d.rd(x, 'sent', 'field'), 'field', 'flags', 'FIELD_ROWID', 'FIELD_UNIQUE'), d.is_(x, 'sent', 'op', 'OPTYPE_EQUAL'))
def flagged(d, srch, g):
    b = d.rd(srch, 'search', 'flags')
    return z3.If(g, b | d.const('SEARCH_IS_UNIQUE'), b)
def r_unique(eng, st, a, n):
    return [(z3.If(z3.Bool('uniqueclause'), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)), st)]
@proof('linker_aliases:linker_aliases_resolve', LA, ['linker_aliases_resolve'], dict(check_search_unique=r_unique), qfeas=False, hints=(sofar,))
def resolve(mk):
    e = mk()
    fd, v, st = e.start('linker_aliases_resolve', LA)
    srch = v[1]
    d0 = D(e, [], [])
    p = z3.Const('theparent', I)
    st.pc += [srch != 0, d0.rd(srch, 'search', 'parent') == p, p != 0]
    low = lambda a: e.lower(e.content(a))
    def known(R, x): return z3.Implies(d0.rd(x, R, 'name') != 0, d0.exists('aliasq', d0.rd(p, 'strct', 'aq'), lambda a: low(d0.rd(a, 'alias', 'name')) == low(d0.rd(x, R, 'name'))))
    for R, q in (('sentq', 'sntq'), ('ordq', 'ordq')): st.pc.append(d0.forall(R, d0.rd(srch, 'search', q), lambda x: known(R[:-1], x)))
    for R in ('group', 'aggr'):
        x = d0.rd(srch, 'search', R); st.pc.append(z3.Implies(x != 0, known(R, x)))
    st.pc += d0.s0.pc
    n = 0
    for val, s in e.runfn(fd, v, st):
        s.pc.append(val != 0)
        if not e.feasible(s): continue
        n += 1
        for R, q in (('sentq', 'sntq'), ('ordq', 'ordq')):
            d = D_at(e, s)
            g = d.forall(R, d.rd(srch, 'search', q), lambda x: named(d, p, R[:-1], x))
            e.oblige(d.s0, g, 'each path in %s has its alias' % q)
        for R in ('group', 'aggr'):
            d = D_at(e, s)
            x = d.rd(srch, 'search', R)
            e.oblige(d.s0, z3.Implies(x != 0, named(d, p, R, x)), 'the path of %s has its alias' % R)
        d = D_at(e, s)
        un = d.exists('sentq', d.rd(srch, 'search', 'sntq'), lambda x: equal_unique(d, x))
        e.oblige(d.s0, d.rd(srch, 'search', 'flags') == flagged(d0, srch, z3.Or(un, z3.Bool('uniqueclause'), (d0.rd(srch, 'search', 'flags') & d0.const('SEARCH_IS_UNIQUE')) != 0)), 'the search is unique iff a unique field or clause is compared for equality')
    if not n: e.obl.append(dict(fn='linker_aliases_resolve', name='vacuity', ok=False, res='failed', t=0, info='no path', line=None))

# ---------------------------------------------------------------- all of it
def a_top(eng, st, a, n):
    """aliases of one structure, after those before it"""
    cfg, orig, p, offs, al = a
    g = st.gh[COUNT]
    now = st.env[offs.key] if isinstance(offs, LocalAddr) else eng.rdmem(st, offs, 'unsigned long')
    eng.oblige(st, now == g, 'aliases are numbered over all structures', n.line)
    eng.oblige(st, z3.And(orig == p, al == 0), 'the aliases of a structure begin with its own fields', n.line)
    t = either(st)
    k = fresh('n', z3.BitVecSort(64))
    st.pc.append(z3.UGE(k, g)); st.gh[COUNT] = k
    eng.store(offs, 'unsigned long', k, st) if isinstance(offs, LocalAddr) else eng.wr(st, eng.memkey('unsigned long'), offs, k, 'unsigned long')
    st.emit(('call', 'aliases', (orig,)))
    return [(z3.BitVecVal(0, 32), t), (z3.BitVecVal(1, 32), st)]
def a_resolve(eng, st, a, n):
    t = either(st)
    st.emit(('call', 'resolve', (a[1],)))
    return [(z3.BitVecVal(0, 32), t), (z3.BitVecVal(1, 32), st)]
def local_count(cut):
    if ('g', COUNT) not in cut.vars: return []
    return [('count%s' % (vk[1],), (lambda vk: lambda t, ix: t.env[vk[1]] == t.gh[COUNT])(vk)) for vk in cut.vars if vk[0] == 'l' and cut.vars[vk][0].sort() == z3.BitVecSort(64)]
@proof('linker_aliases:linker_aliases', LA, ['linker_aliases'], dict(linker_aliases_create=a_top, linker_aliases_resolve=a_resolve), qfeas=False, hints=(local_count,))
def aliases(mk):
    e = mk()
    fd, v, st = e.start('linker_aliases', LA)
    st.gh[COUNT] = z3.BitVecVal(0, 64)
    entry = list(st.pc); n = 0
    for val, s in e.runfn(fd, v, st):
        s.pc.append(val != 0)
        if not e.feasible(s): continue
        n += 1
        for d, _ in explore(e, s.pc, None):
            q = d.rd(v[0], 'config', 'sq')
            d.each('strctq', q, lambda d, x, i: d.call('aliases', x))
            d.each('strctq', q, lambda d, x, i: d.each('searchq', d.rd(x, 'strct', 'sq'), lambda d, y, k: d.call('resolve', y)))
            d.final = s; d.declared = list(entry)
            try: compare(d, s.tr.items(), d.out, 'linker_aliases'); good, why = True, ''
            except Mismatch as m: good, why = e.check(d.pc + d.s0.pc, 4000)[0] == z3.unsat, str(m)
            e.obl.append(dict(fn='linker_aliases', name='every structure gets its aliases, then every search', ok=good, res='unsat' if good else 'failed', t=0, info=why, line=None))
    if not n: e.obl.append(dict(fn='linker_aliases', name='vacuity', ok=False, res='failed', t=0, info='no path', line=None))
