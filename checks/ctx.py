"""Shared machinery of the checks: build, cases, violations, evidence."""
import json, os, sys, threading, time, hashlib
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'conc'))
import tools, model, expect

def known():
    out = {}
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                kv = l[9:].split(' ', 2)
                out[(kv[0].split('=', 1)[1], kv[1].split('=', 1)[1])] = kv[2] if len(kv) > 2 else ''
    return out
KNOWN = known()

class Problem(object):
    """one observed failure: where/what, and all a reader needs to replay it"""
    def __init__(s, what, files=None, cmd=None, key=None):
        s.what, s.files, s.cmd, s.key = what, files or {}, cmd, key or what

class Ctx(object):
    def __init__(s, pid, tier, seed, repo='/repo'):
        s.pid, s.tier, s.seed, s.repo = pid, tier, seed, repo
        s.t0 = time.time()
        s.problems = []; s.known_hits = {}
        s.evals = 0; s.nontriv = set(); s.samples = []; s.rules = []
        s.notes = []
        s.lock = threading.Lock()
        s._t = s._san = s._scr = None
        s.scale = 1.0
        s.deadline = s.t0 + (420 if tier == 'quick' else 3000)
    def quick(s): return s.tier == 'quick'
    @property
    def t(s):
        with s.lock:
            if s._t is None: s._t = tools.Tools(s.repo)
        return s._t
    @property
    def san(s):
        with s.lock:
            if s._san is None: s._san = tools.Tools(s.repo, san=True)
        return s._san
    @property
    def scratch(s):
        with s.lock:
            if s._scr is None: s._scr = tools.Scratch()
        return s._scr
    def problem(s, what, files=None, cmd=None, key=None):
        with s.lock:
            if key is not None and (s.pid, key) in KNOWN:
                s.known_hits[key] = s.known_hits.get(key, 0) + 1; return
            s.problems.append(Problem(what, files, cmd, key))
    def case(s, key, sample=None):
        h = hashlib.sha1(repr(key).encode('utf-8', 'surrogateescape')).hexdigest()[:16]
        with s.lock:
            s.evals += 1
            if h not in s.nontriv:
                s.nontriv.add(h)
                if sample is not None and len(s.samples) < 3: s.samples.append(sample if len(str(sample)) < 1500 else str(sample)[:1500] + '...')
    def trivial(s):
        with s.lock: s.evals += 1
    def each(s, n, fn, budget=60, nth=None):
        """fn(i) over i in 0..n (scaled by tier), until the budget is used or
        enough problems were found"""
        if not s.quick(): n *= 12; budget *= 8
        n = int(n * s.scale)
        end = min(time.time() + budget * max(1.0, s.scale), s.deadline)
        n0 = len(s.problems)
        base = s.seed * 100003
        def one(i):
            if time.time() > end or len(s.problems) - n0 >= 3: return
            try: fn(base + i)
            except tools.BuildError: raise
            except RecursionError as e: s.notes.append('harness: %r' % e)
        with ThreadPoolExecutor(8) as ex: list(ex.map(one, range(n)))
