"""one proof in one process: worker.py SRCDIR NAME OUT SECONDS"""
import json, os, sys, time, traceback, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'ortv')); sys.path.insert(0, os.path.join(ROOT, 'specs'))
sys.setrecursionlimit(20000); threading.stack_size(512 << 20)

def main(dst, name, out, secs):
    import proofs, engine, cfront
    p = proofs.PROOFS[name]
    r = dict(name=name, status='undecided', why=None, obl=[], functions=p['functions'])
    engs = []
    try:
        prog = cfront.Program(dst, p['files'])
        prog.macrodir = dst
        def mk(**k):
            e = engine.Eng(prog, dict(p['contracts']))
            for a, b in dict(p['flags'], **k).items(): setattr(e, a, b)
            e.deadline = time.time() + secs
            engs.append(e); return e
        p['run'](mk)
        r['status'] = 'proved'
    except engine.Unsupported as e: r['why'] = 'not within reach: %s' % e
    except cfront.FrontError as e: r['why'] = str(e)
    except KeyError as e: r['why'] = 'not found: %s %s' % (e, traceback.format_exc()[-600:] if os.environ.get('ORTV_SLOW') else '')
    except Exception as e: r['why'] = 'verifier: ' + traceback.format_exc()[-700:]
    st = {}
    for e in engs:
        for o in e.obl: r['obl'].append(dict((k, (str(v)[:600] if not isinstance(v, (int, float, bool, type(None))) else v)) for k, v in o.items()))
        for k, v in e.stats.items(): st[k] = st.get(k, 0) + v
        r.setdefault('assumptions', []).extend(sorted(str(x) for x in e.assumptions))
        r.setdefault('inlined', []).extend(sorted(str(x) for x in e.inlined))
    r['stats'] = st
    if any(not o['ok'] for o in r['obl']):
        # a failure counts only if every solver query was answered
        if any(e.weak for e in engs) or all(o['ok'] or o.get('res') == 'timeout' for o in r['obl']):
            r['status'] = 'undecided'; r['why'] = 'solver gave no answer in time'
        else: r['status'] = 'failed'
    elif r['status'] == 'proved' and not r['obl']: r['status'] = 'undecided'; r['why'] = 'no obligations'
    with open(out + '.tmp', 'w') as f: json.dump(r, f)
    os.rename(out + '.tmp', out)

if __name__ == '__main__':
    t = threading.Thread(target=main, args=(sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4])))
    t.start(); t.join()
