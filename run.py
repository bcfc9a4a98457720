#!/usr/bin/env python3-vt
"""run.py PROPERTY [--tier quick|thorough]: decide one property on /repo's tree."""
import argparse, json, os, subprocess, sys, tempfile, time, traceback, shutil, atexit
ROOT = os.path.dirname(os.path.abspath(__file__))
for d in ('checks', 'conc', 'ortv', 'specs'): sys.path.insert(0, os.path.join(ROOT, d))
os.environ.setdefault('TZ', 'UTC')
import tools, ctx as C

def prove(names, tdir, tier, limit):
    """run each proof in its own process; returns list of result dicts"""
    import threading, queue
    dst = tempfile.mkdtemp(prefix='ortv-src-'); atexit.register(shutil.rmtree, dst, True)
    import cfront
    shutil.rmtree(dst); cfront.extract(tdir, dst)
    q = queue.Queue(); res = {}
    for n in names: q.put(n)
    end = time.time() + limit
    def work():
        while True:
            try: n = q.get_nowait()
            except queue.Empty: return
            t = time.time(); left = end - t
            if left < 5: res[n] = dict(name=n, status='undecided', why='no time left', obl=[], wall=0); continue
            out = os.path.join(dst, 'res-%s.json' % n)
            per = min(left, 300 if tier == 'quick' else 900)
            try:
                r = subprocess.run([sys.executable, os.path.join(ROOT, 'specs', 'worker.py'), dst, n, out, '%d' % per], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=per + 20)
                if os.path.exists(out): res[n] = json.load(open(out))
                else: res[n] = dict(name=n, status='undecided', why='worker: ' + r.stdout.decode()[-300:], obl=[])
            except subprocess.TimeoutExpired:
                res[n] = dict(name=n, status='undecided', why='timeout', obl=[])
            res[n]['wall'] = round(time.time() - t, 2)
    ts = [threading.Thread(target=work) for _ in range(8)]
    for t in ts: t.start()
    for t in ts: t.join()
    return [res[n] for n in names]

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid'); ap.add_argument('--tier', default=None); ap.add_argument('--repo', default='/repo')
    ap.add_argument('--no-proof', action='store_true'); ap.add_argument('--no-oracle', action='store_true'); ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    pid = a.pid
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import registry
    reg = registry.CHECKS[pid]
    c = C.Ctx(pid, tier, seed, a.repo); c.scale = a.scale
    proofs = []
    try:
        c.t
    except tools.BuildError as e:
        # a tree which doesn't build is no evidence about the property
        print('cannot build: %s' % str(e)[-600:]); c.notes.append('build failed')
        finish(c, reg, [], t0, []); return 0
    if reg.get('proofs') and not a.no_proof:
        proofs = prove(reg['proofs'], c.t.dir, tier, 330 if tier == 'quick' else 2400)
    failed = [p for p in proofs if p['status'] == 'failed']
    undec = [p for p in proofs if p['status'] == 'undecided']
    if failed or undec: c.scale *= 4; c.deadline = time.time() + 400
    if reg.get('oracle') and not a.no_oracle:
        try: reg['oracle'](c)
        except tools.BuildError as e:
            print('cannot build: %s' % str(e)[-600:]); c.notes.append('build failed: ' + str(e)[-200:])
        except Exception:
            c.notes.append('oracle ended early: ' + traceback.format_exc()[-1500:])
            print('note: oracle ended early\n' + traceback.format_exc(), file=sys.stderr)
    # --- report
    probs = c.problems
    for (p, k), w in sorted(C.KNOWN.items()):
        if p == pid: print('KNOWN-FINDING: property=%s %s' % (pid, w))
    lines = []
    rep = os.path.join(ROOT, 'replays', pid)
    if probs or failed:
        shutil.rmtree(rep, True); os.makedirs(rep, exist_ok=True)
    for i, p in enumerate(probs[:3]):
        path = os.path.join(rep, 'case%d.txt' % i)
        with open(path, 'w', encoding='utf-8', errors='surrogateescape') as f:
            f.write('property %s\n%s\n' % (pid, p.what))
            if p.cmd: f.write('command: %s\n' % p.cmd)
            for fp in failed: f.write('failed obligation: %s: %s\n' % (fp['name'], json.dumps([o for o in fp['obl'] if not o['ok']][:3])))
            for k, v in p.files.items():
                f.write('---- %s\n%s\n' % (k, v))
        print('  ' + p.what[:1000].replace('\n', '\n  '))
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
    if failed and not probs:
        path = os.path.join(rep, 'obligation.txt')
        with open(path, 'w') as f:
            f.write('property %s: obligations the verifier does not discharge, with no failing input found in %d evaluations\n' % (pid, c.evals))
            for fp in failed: f.write(json.dumps(fp, indent=1) + '\n')
        for fp in failed: print('  obligation failed: %s: %s' % (fp['name'], [(o['name'], o.get('line'), o.get('info')) for o in fp['obl'] if not o['ok']][:3]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    for p in proofs: print('proof %-40s %-10s %3d obligations %6.1fs %s' % (p['name'], p['status'], len(p['obl']), p.get('wall', 0), p.get('why', '') or ''))
    for n in c.notes: print('note: ' + n[:400])
    print('%s: %d cases (%d distinct), %d proofs (%d discharged), %.1fs' % (pid, c.evals, len(c.nontriv), len(proofs), len([p for p in proofs if p['status'] == 'proved']), time.time() - t0))
    for l in lines[:1]: print(l)
    finish(c, reg, proofs, t0, lines)
    return 1 if lines else 0

def finish(c, reg, proofs, t0, lines):
    obl = [o for p in proofs for o in p['obl']]
    ass = list(reg.get('assume', []))
    for p in proofs:
        for x in p.get('assumptions', []):
            if x not in ass: ass.append(x)
    und = [p for p in proofs if p['status'] == 'undecided']
    cov = dict(
        obligations=len(obl), discharged=len([o for o in obl if o['ok']]),
        checker_cmd='./run.py %s --tier %s' % (c.pid, c.tier),
        trusted_base=['clang 18 AST of the extracted sources', 'ortv verifier (/verif/ortv)', 'z3 (python3-vt z3-solver)', 'assumed contracts of libc, sys/queue.h and stdio (ortv/libc.py)'],
        functions_under_contract=[dict(name=p['name'], functions=p.get('functions', []), status=p['status'], obligations=len(p['obl']), wall_s=p.get('wall'), solver=p.get('stats'), inlined=p.get('inlined', []), why=p.get('why')) for p in proofs],
        undecided_this_run=[p['name'] for p in und],
        solver_s=round(sum((p.get('stats') or {}).get('t', 0) for p in proofs), 2),
        bounded_standins=reg.get('bounded', ''),
        evaluations=c.evals, distinct_nontrivial=len(c.nontriv), rule=reg.get('rule', 'random configurations of conc/model.py; distinct by content'),
        samples=c.samples or ['(none this run)'], notes=c.notes)
    e = dict(property=c.pid, tier=c.tier, seed=c.seed, level=reg.get('level', 'proof'), coverage=cov, wall_s=round(time.time() - t0, 2), assumptions=ass, violations=len(lines))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', c.pid + '.json'), 'w') as f: json.dump(e, f, indent=1, default=str)

if __name__ == '__main__':
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); rc = 0
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc) if False else sys.exit(rc)
