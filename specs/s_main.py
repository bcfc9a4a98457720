"""the main functions: a tool succeeds only if everything before it did (P18)"""
from common import *
import libc
BAD, OUTBAD, DIRTY, SAID = 'bad', 'outbad', 'dirty', 'said'
T, F_ = z3.BoolVal(True), z3.BoolVal(False)

def may(name, w=32):
    """a function which may fail (0, or NULL): its failure is recorded"""
    def f(eng, st, a, n):
        eng.assumptions.add('contract: %s reports failure by its result' % name)
        t = either(st); t.gh[BAD] = T
        ok = fresh(name, I if w is None else z3.BitVecSort(w)); st.pc.append(ok != 0)
        if name in ('ort_parse_file', 'ort_parse_close'): st.emit(('call', name, tuple(a)))
        return [(z3.IntVal(0) if w is None else z3.BitVecVal(0, w), t), (ok, st)]
    return f
def gen(name, neg=False):
    """a generator: any result; it writes to stdout, and writes may go wrong unnoticed"""
    def f(eng, st, a, n):
        eng.assumptions.add('contract: %s writes only through stdio, and returns success or failure' % name)
        ob = fresh('outbad', z3.BoolSort())
        st.gh[OUTBAD] = z3.Or(st.gh[OUTBAD], ob); st.gh[DIRTY] = T; st.gh['made'] = T
        if n.ty == 'void': return [(None, st)]
        t = either(st); t.gh[BAD] = T
        r = fresh(name, z3.BitVecSort(32)); t.pc.append(r <= 0) if neg else t.pc.append(r == 0)
        k = fresh(name, z3.BitVecSort(32)); st.pc.append(k > 0) if neg else st.pc.append(k != 0)
        return [(r, t), (k, st)]
    return f
def fflush(eng, st, a, n):
    libc.used(eng, 'fflush, ferror: stream errors stay')
    t = either(st); t.gh[OUTBAD] = T
    st.gh[DIRTY] = F_; st.pc.append(z3.Not(st.gh[OUTBAD])) if False else None
    return [(z3.BitVecVal(-1, 32), t), (z3.BitVecVal(0, 32), st)]
def ferror(eng, st, a, n):
    r = fresh('ferror', z3.BitVecSort(32)); st.pc.append((r != 0) == st.gh[OUTBAD]); return [(r, st)]
def die(eng, st, a, n):
    """err(): prints and exits, and not as if nothing had happened"""
    eng.oblige(st, a[0] != 0, 'the exit status of err() at line %s is a failure' % n.line, n.line)
    return []
def says(eng, st, a, n):
    st.gh[SAID] = T; return [(None if n.ty == 'void' else fresh('n', sort_of(n.ty)), st)]
def printf_(eng, st, a, n):
    """printf to stderr"""
    st.gh[SAID] = T; return [(fresh('n', z3.BitVecSort(32)), st)]
def anyptr(eng, st, a, n): 
    v = fresh('ptr', I); st.pc.append(v != 0); return [(v, st)]
def fopen(eng, st, a, n):
    t = either(st); t.gh[BAD] = T
    v = fresh('file', I); st.pc.append(v != 0); return [(z3.IntVal(0), t), (v, st)]
def getopt(eng, st, a, n):
    libc.used(eng, 'getopt')
    return [(fresh('opt', z3.BitVecSort(32)), st)]
def mem(eng, st, a, n):
    t = either(st); t.gh[BAD] = T
    v = fresh('mem', I); st.pc.append(v != 0)
    return [(z3.IntVal(0), t), (v, st)]
def some_ptr(eng, st, a, n): return [(fresh('ptr', I), st)]
CON = dict(ort_parse_file=may('ort_parse_file'), ort_parse_close=may('ort_parse_close'), ort_config_alloc=mem, calloc=mem, malloc=mem, ort_diff=may('ort_diff', None), ort_audit=may('ort_audit', None),
    fflush=fflush, ferror=ferror, err=die, errx=die, warn=says, warnx=says, fprintf=printf_, ort_write_msg_file=says, fopen=fopen, getopt=getopt, readfile=anyptr,
    ort_config_free=quiet, ort_diffq_free=quiet, ort_auditq_free=quiet, ort_msgq_free=quiet, fclose=some, free=quiet, getprogname=anyptr, strchr=some_ptr)
def one(d, argc, argv):
    if True:
        n = argc - z3.Const('glob.optind', z3.BitVecSort(32))
        av = argv + z3.simplify(z3.BV2Int(z3.Const('glob.optind', z3.BitVecSort(32)), is_signed=True)) * 8
        def each(d, i): d.call('ort_parse_file', None, None, d.eng.rdmem(d.s0, d.eng.padd(av, i, 'unsigned long', 'char **'), 'char *'))
        d.times(z3.SignExt(32, n), each)
        d.when(n == 0, lambda d: d.call('ort_parse_file', None, None, '<stdin>'))
        d.call('ort_parse_close', None)
def main_proof(file, gens, success=(0,), read=None, **k):
    con = dict(CON); con.update((g, gen(g, g.startswith('ort_lang_xliff'))) for g in gens)
    con.update(k.pop('more', {}))
    @proof(file[:-2] + ':main', file, ['main'], con, **dict(dict(qfeas=False, hist=False, uidx=True, escape=True), **k))
    def run(mk):
        e = mk()
        fd, v, st = e.start('main', file)
        for g in (BAD, OUTBAD, DIRTY, SAID, 'made'): st.gh[g] = F_
        n = 0; entry = list(st.pc)
        for val, s in e.runfn(fd, v, st):
            if not e.feasible(s): continue
            n += 1
            ok = z3.Or(*[val == x for x in success])
            e.oblige(s, z3.Implies(ok, z3.Not(s.gh[BAD])), 'success means that everything before succeeded')
            e.oblige(s, z3.Implies(ok, s.gh['made']), 'success means that the output was generated')
            e.oblige(s, z3.Implies(ok, z3.And(z3.Not(s.gh[OUTBAD]), z3.Not(s.gh[DIRTY]))), 'success means that the whole output was written')
            e.oblige(s, z3.Implies(z3.Not(ok), s.gh[SAID]), 'failure is reported with a message')
            if read and e.feasible(s, ok):
                for d, _ in explore(e, s.pc + [ok], None):
                    d.final = s; d.declared = list(entry)
                    read(d, *v)
                    try: compare(d, s.tr.items(), d.out, 'main'); good, why = True, ''
                    except Mismatch as m: good, why = e.check(d.pc + d.s0.pc, 4000)[0] == z3.unsat, str(m)
                    except Structure as m:
                        if e.check(d.pc + d.s0.pc, 4000)[0] != z3.unsat: raise Unsupported(str(m))
                        good, why = True, ''
                    e.obl.append(dict(fn='main', name='success means that all the input was read, then linked, then used', ok=good, res='unsat' if good else 'failed', t=0, info=why, line=None))
            e.oblige(s, z3.Implies(z3.And(z3.Not(s.gh[BAD]), s.gh['made'], z3.Not(s.gh[OUTBAD])), ok), 'nothing else makes the tool fail')
        if not n: e.obl.append(dict(fn='main', name='vacuity', ok=False, res='failed', t=0, info='no path', line=None))
main_proof('main.c', ['ort_write_file'], read=one)
main_proof('cheader.c', ['ort_lang_c_header'], read=one)
main_proof('csource.c', ['ort_lang_c_source'], read=one)
main_proof('cmanpage.c', ['ort_lang_c_manpage'], read=one)
main_proof('javascript.c', ['ort_lang_javascript'], read=one)
main_proof('nodejs.c', ['ort_lang_nodejs'], read=one)
main_proof('json.c', ['ort_lang_json'], read=one)
main_proof('rust.c', ['ort_lang_rust'], read=one)
main_proof('sql.c', ['ort_lang_sql'], read=one)
main_proof('sqldiff.c', ['ort_lang_diff_sql'])
main_proof('xliff.c', ['ort_lang_xliff_' + x for x in ('extract', 'join', 'update')])
main_proof('maindiff.c', ['ort_write_diff_file'], (0, 1))
main_proof('mainaudit.c', ['audit_write'], read=one)
main_proof('audit-json.c', ['gen_audit_json'], read=one)

def r_diff(eng, st, a, n):
    t = either(st)
    v = z3.Int('thediffs'); st.pc.append(v != 0)
    return [(z3.IntVal(0), t), (v, st)]
SAMES = ['DIFF_SAME_' + x for x in 'BITF BITIDX EITEM ENM FIELD INSERT ROLE ROLES SEARCH STRCT UPDATE'.split()]
@proof('maindiff:exit', 'maindiff.c', ['main'], dict(CON, ort_write_diff_file=gen('ort_write_diff_file'), ort_diff=r_diff), qfeas=False, uidx=True)
def maindiff_exit(mk):
    """0: no difference, 1: some difference"""
    e = mk()
    fd, v, st = e.start('main', 'maindiff.c')
    for g in (BAD, OUTBAD, DIRTY, SAID, 'made'): st.gh[g] = F_
    n = 0
    for val, s in e.runfn(fd, v, st):
        s.pc.append(z3.Or(val == 0, val == 1))
        if not e.feasible(s): continue
        n += 1
        d = D(e, [], [])
        ex = d.exists('diffq', z3.Int('thediffs'), lambda x: z3.Not(oneof(d.rd(x, 'diff', 'type'), *[d.const(k) for k in SAMES])))
        s.pc += d.s0.pc
        e.oblige(s, (val == 1) == ex, 'the exit status tells whether anything differs')
    if not n: e.obl.append(dict(fn='main', name='vacuity', ok=False, res='failed', t=0, info='no path', line=None))
