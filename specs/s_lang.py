"""comments: documentation stays within them (P08)"""
from common import *
import libc
# the state of the text written so far:
#   open  within a block comment          star  its last character is '*'
#   line  0 at the start of a line (blanks only), 1 after its '-', 2 within a line comment, 3 elsewhere
#   bad   a character was written outside of any comment, or closed one it did not open
OPEN, STAR, LINE, CBAD = 'cm.open', 'cm.star', 'cm.line', 'cm.bad'
T, F_ = z3.BoolVal(True), z3.BoolVal(False)
def b2(n): return z3.BitVecVal(n, 2)
def isin(c, s): return z3.Or(*[c == ord(x) for x in s])
def put(eng, st, c):
    """a character of the documentation"""
    g = st.gh
    inside = z3.Or(g[OPEN], g[LINE] == 2)
    closes = z3.And(g[OPEN], g[STAR], c == ord('/'))
    g[CBAD] = z3.simplify(z3.Or(g[CBAD], closes, z3.And(z3.Not(inside), z3.Not(isin(c, '\n\t ')))))
    g[STAR] = z3.simplify(c == ord('*'))
    g[LINE] = z3.simplify(z3.If(c == 10, b2(0), z3.If(z3.And(g[LINE] == 0, isin(c, '\t ')), b2(0), z3.If(g[LINE] == 2, b2(2), b2(3)))))
def puts(eng, st, text):
    """a text of the generator itself: it may open and close comments"""
    g = st.gh
    i = 0
    while i < len(text):
        c = text[i]
        if text[i:i + 2] == '/*': g[OPEN], g[STAR], g[LINE] = T, F_, b2(3); i += 2; continue
        close = z3.BoolVal(False)
        if c == '/' :
            close = z3.simplify(z3.And(g[OPEN], g[STAR]))
        elif c not in '\n\t -*':
            g[CBAD] = z3.simplify(z3.Or(g[CBAD], z3.Not(z3.Or(g[OPEN], g[LINE] == 2))))
        g[OPEN] = z3.simplify(z3.And(g[OPEN], z3.Not(close)))
        g[STAR] = z3.BoolVal(c == '*')
        if c == '\n': g[LINE] = b2(0)
        elif c == '-': g[LINE] = z3.simplify(z3.If(g[LINE] == 0, b2(1), z3.If(z3.Or(g[LINE] == 1, g[LINE] == 2), b2(2), b2(3))))
        elif c in '\t ': g[LINE] = z3.simplify(z3.If(g[LINE] == 1, b2(3), g[LINE]))
        else: g[LINE] = z3.simplify(z3.If(g[LINE] == 2, b2(2), b2(3)))
        i += 1
def putstr(eng, st, p):
    """a whole text of the documentation on one line"""
    g = st.gh
    has = z3.Or(eng.strhas(p, '*/'), z3.And(g[STAR], eng.rdmem(st, p, 'char') == ord('/')))
    nl = eng.strhas(p, '\n')
    inside = z3.Or(g[OPEN], z3.And(g[LINE] == 2, z3.Not(nl)))
    g[CBAD] = z3.simplify(z3.Or(g[CBAD], z3.And(g[OPEN], has), z3.Not(inside)))
    g[STAR] = fresh('star', z3.BoolSort()); g[LINE] = z3.If(g[LINE] == 2, b2(2), b2(3))
def c_fputc(eng, st, a, n):
    libc.used(eng, 'fputc')
    c = z3.simplify(a[0])
    if z3.is_bv_value(c): puts(eng, st, chr(c.as_long() & 255))
    else: put(eng, st, z3.Extract(7, 0, c))
    return [(z3.ZeroExt(24, z3.Extract(7, 0, c)), st)]
def items(eng, st, its):
    for c in its:
        if c[0] == 'lit': puts(eng, st, c[1])
        elif c[0] == 'chr': put(eng, st, z3.Extract(7, 0, c[1]))
        elif c[0] == 'str': putstr(eng, st, c[1])
        else: raise Unsupported('%s in a comment' % (c[0],))
def c_fputs(eng, st, a, n):
    libc.used(eng, 'fputs')
    t = libc.lit_of(eng, a[0])
    items(eng, st, [('lit', t) if t is not None else ('str', a[0])])
    return [(z3.BitVecVal(1, 32), st)]
def c_fprintf(eng, st, a, n):
    libc.used(eng, 'fprintf')
    fmt = libc.lit_of(eng, a[1])
    if fmt is None: raise Unsupported('non-literal format')
    items(eng, st, libc.chunks_of(eng, st, fmt, a[2:], None))
    return [(z3.BitVecVal(1, 32), st)]
def c_strchr(eng, st, a, n):
    libc.used(eng, 'strchr')
    c = z3.simplify(a[1])
    t = libc.lit_of(eng, a[0])
    if t is not None: return [(z3.IntVal(1) if chr(c.as_long()) in t else z3.IntVal(0), st)]
    r = fresh('chr', I); st.pc.append((r != 0) == eng.strhas(a[0], chr(c.as_long())))
    return [(r, st)]
def c_strstr(eng, st, a, n):
    libc.used(eng, 'strstr')
    t = libc.lit_of(eng, a[1])
    r = fresh('str', I); st.pc.append((r != 0) == eng.strhas(a[0], t))
    return [(r, st)]
WRITE = dict(fputc=c_fputc, putc=c_fputc, fputs=c_fputs, fprintf=c_fprintf, strchr=c_strchr, strstr=c_strstr)
def strhas(eng, p, t):
    return z3.Function('strhas.' + t.encode().hex(), I, z3.BoolSort())(p)
Eng.strhas = strhas
def hints(cut):
    """a comment's '*' was written from a local character"""
    out = []
    for vk in cut.vars:
        if vk[0] == 'l' and cut.vars[vk][0].sort() == z3.BitVecSort(8):
            for x in '*\n':
                out.append(('star%s%s' % (vk[1], x), (lambda vk, x: lambda t, ix: z3.Implies(t.gh[STAR], t.env[vk[1]] == ord(x)))(vk, x)))
                out.append(('nostar%s%s' % (vk[1], x), (lambda vk, x: lambda t, ix: z3.Implies(t.env[vk[1]] != ord(x), z3.Not(t.gh[STAR])))(vk, x)))
    if any(vk == ('g', LINE) for vk in cut.vars):
        out.append(('inline', lambda t, ix: t.gh[LINE] == 2))
    return out
def comment_proof(k):
    """a kind of comment: the text stays within it, and leaves it as it should be"""
    @proof('lang:gen_comment.%s' % k, 'lang.c', ['gen_comment', 'print_comment'], WRITE, hints=(hints,), qfeas=False, hist=False, mergetr=True, merge_threshold=1)
    def run(mk):
        e = mk()
        d0 = D(e, [], [])
        fd, v, st = e.start('gen_comment', 'lang.c')
        st.pc.append(v[2] == d0.const('COMMENT_' + k)); st.pc.append(v[3] != 0)
        st.gh[OPEN] = z3.BoolVal(k.endswith(('_FRAG', '_CLOSE'))); st.gh[STAR] = F_; st.gh[LINE] = b2(0); st.gh[CBAD] = F_
        n = 0
        for val, s in e.runfn(fd, v, st):
            s.pc.append(val != 0)
            if not e.feasible(s): continue
            n += 1
            e.oblige(s, z3.Not(s.gh[CBAD]), '%s: documentation stays within the comment' % k)
            e.oblige(s, s.gh[OPEN] == z3.BoolVal(k.endswith(('_FRAG', '_OPEN'))), '%s: the comment is left closed, or open for its next part' % k)
            e.oblige(s, s.gh[LINE] == 0, '%s: the comment ends its line' % k)
        if not n: e.obl.append(dict(fn='gen_comment', name='vacuity', ok=False, res='failed', t=0, info='no path', line=None))
for k in 'C C_FRAG C_FRAG_CLOSE C_FRAG_OPEN JS JS_FRAG JS_FRAG_CLOSE JS_FRAG_OPEN SQL'.split(): comment_proof(k)

# ---------------------------------------------------------------- who writes comments
def heapkey(v):
    """the field a term was read from"""
    if z3.is_app_of(v, z3.Z3_OP_SELECT):
        a = v.arg(0)
        while z3.is_app_of(a, z3.Z3_OP_STORE): a = a.arg(0)
        return str(a)
    return ''
def isdoc(eng, v):
    if not z3.is_expr(v): return False
    seen = [v]
    while seen:
        x = seen.pop()
        if heapkey(x).split('.')[-1] == 'doc' or heapkey(x).endswith('::doc'): return True
        if z3.is_app_of(x, z3.Z3_OP_ITE): seen += [x.arg(1), x.arg(2)]
    return False
def code(eng, st, docs=()):
    """text which is no comment: not within one, and none of the documentation"""
    st.gh[CBAD] = z3.simplify(z3.Or(st.gh[CBAD], st.gh[OPEN], z3.BoolVal(any(isdoc(eng, v) for v in docs))))
def p_write(n_):
    def f(eng, st, a, n):
        libc.used(eng, n_)
        code(eng, st, a)
        return [(z3.BitVecVal(1, 32), st)]
    return f
def p_plain(name):
    """a function of the generator without comments of its own, or with closed ones"""
    def f(eng, st, a, n):
        eng.assumptions.add('contract: %s leaves no comment open (its own proof, if it writes any)' % name)
        code(eng, st)
        return [(None if n.ty == 'void' else fresh('r', sort_of(n.ty)), st)]
    return f
def p_within(name):
    """a function writing a part of a comment"""
    def f(eng, st, a, n):
        st.gh[CBAD] = z3.simplify(z3.Or(st.gh[CBAD], z3.Not(st.gh[OPEN])))
        return [(None if n.ty == 'void' else fresh('r', sort_of(n.ty)), st)]
    return f
def p_comment(eng, st, a, n, some=None):
    k = lambda *ns: oneof(a[2], *[D(eng, [], []).const('COMMENT_' + x) for x in ns])
    cp = a[3] != 0 if some is None else z3.BoolVal(True)
    whole = k('C', 'JS', 'SQL', 'C_FRAG_OPEN', 'JS_FRAG_OPEN')
    g = st.gh
    g[CBAD] = z3.simplify(z3.Or(g[CBAD], z3.And(cp, z3.If(whole, g[OPEN], z3.Not(g[OPEN])))))
    g[OPEN] = z3.simplify(z3.If(cp, k('C_FRAG', 'C_FRAG_OPEN', 'JS_FRAG', 'JS_FRAG_OPEN'), g[OPEN]))
    r = fresh('r', z3.BitVecSort(32))
    return [(r, st)]
def p_commentv(eng, st, a, n): return p_comment(eng, st, a, n, True)
def p_str(eng, st, a, n):
    return [(fresh('s', I), st)]
def opened(cut):
    """a local tells whether a comment is open"""
    out = []
    if ('g', OPEN) not in cut.vars: return out
    d = D(cut.eng, [], [])
    for vk in cut.vars:
        if vk[0] == 'l' and cut.vars[vk][0].sort() == z3.BitVecSort(32):
            for x in ('JS_FRAG', 'C_FRAG'):
                out.append(('open%s%s' % (vk[1], x), (lambda vk, x: lambda t, ix: t.gh[OPEN] == (t.env[vk[1]] == d.const('COMMENT_' + x)))(vk, x)))
                out.append(('part%s%s' % (vk[1], x), (lambda vk, x: lambda t, ix: oneof(t.env[vk[1]], d.const('COMMENT_' + x), d.const('COMMENT_%s_OPEN' % x)))(vk, x)))
                out.append(('stays%s%s' % (vk[1], x), (lambda vk, x, v0: lambda t, ix: z3.Implies(v0 == d.const('COMMENT_' + x), t.env[vk[1]] == d.const('COMMENT_' + x)))(vk, x, cut.vars[vk][0])))
    return out
def protocol(file, fn, within=(), requires=None, **flags):
    """`fn` writes code only outside of comments and documentation only within,
    and opens and closes its comments properly"""
    @proof('%s:%s.comments' % (file[:-2], fn), file, [fn], {}, **dict(dict(qfeas=False, hist=False, uidx=True, escape=True, mergetr=True, merge_threshold=1, asserts=False, hints=(opened,)), **flags))
    def run(mk):
        e = mk()
        con = {}
        for (f, n), fd in e.prog.funcs.items():
            if n != fn: con[n] = p_plain(n)
        for n in within:
            if n != fn: con[n] = p_within(n)
        for n in ('gen_sql_stmts', 'gen_sql_enums', 'gen_enum_delete', 'gen_enum_insert', 'gen_enum_update', 'gen_enum_query', 'gen_enum_unique'): con[n] = p_plain(n)
        for n in ('fputc', 'fputs', 'fprintf', 'putc', 'fwrite'): con[n] = p_write(n)
        con['gen_comment'] = p_comment; con['gen_commentv'] = p_commentv
        e.con.update(con); e.anyext = lambda n: p_plain(n) if n.startswith(('gen_', 'print_', 'ort_')) else None
        fd, v, st = e.start(fn, file)
        op = z3.BoolVal(fn in within)
        st.gh[OPEN] = op; st.gh[CBAD] = F_
        if requires: st.pc += requires(D(e, [], []), *v)
        n = 0
        for val, s in e.runfn(fd, v, st):
            if val is not None: s.pc.append(val != 0)
            if not e.feasible(s): continue
            n += 1
            e.oblige(s, z3.Not(s.gh[CBAD]), 'documentation only within comments, code only outside of them')
            e.oblige(s, s.gh[OPEN] == op, 'comments are closed')
        if not n: e.obl.append(dict(fn=fn, name='vacuity', ok=False, res='failed', t=0, info='no path', line=None))
HDR = 'gen_bitfield gen_close gen_database gen_enum gen_field gen_json_out gen_json_parse gen_open gen_role gen_roles gen_search gen_struct gen_transaction gen_update gen_valids ort_lang_c_header'.split()
for f in HDR: protocol('lang-c-header.c', f)
for f in ('gen_jsdoc_field', 'ort_lang_javascript'): protocol('lang-javascript.c', f, ('gen_jsdoc_field',))
for f in 'gen_bitf gen_enm gen_insert gen_ortargs gen_ortctx gen_ortctx_dbrole gen_ortdb gen_ortns gen_ortns_express_valids gen_query gen_strct gen_update ort_lang_nodejs'.split():
    protocol('lang-nodejs.c', f, requires=(lambda d, f, cfg, up, n: [z3.Implies(d.rd(up, 'update', 'type') == d.const('UP_MODIFY'), d.len('urefq', d.rd(up, 'update', 'mrq')) > 0)]) if f == 'gen_update' else None)
for f in 'gen_fill gen_json_out gen_json_out_field gen_json_parse gen_open gen_unfill ort_lang_c_source'.split(): protocol('lang-c-source.c', f)
