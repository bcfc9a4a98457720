"""Build the command-line tools from /repo's current working tree in a scratch
directory, and run them."""
import atexit, os, shutil, subprocess, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

TOOLS = ['ort', 'ort-audit', 'ort-audit-json', 'ort-diff', 'ort-sql', 'ort-sqldiff', 'ort-json', 'ort-xliff',
         'ort-c-source', 'ort-c-header', 'ort-c-manpage', 'ort-javascript', 'ort-nodejs', 'ort-rust']

class BuildError(Exception):
    pass

def source_copy(repo, dst):
    """Tracked and untracked-but-not-ignored files of the working tree."""
    r = subprocess.run(['git', '-c', 'safe.directory=*', '-C', repo, 'ls-files', '-z', '-co', '--exclude-standard'], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode == 0:
        files = [x for x in r.stdout.decode('utf-8', 'surrogateescape').split('\0') if x]
        for f in files:
            s = os.path.join(repo, f)
            if f.startswith('regress/') or not os.path.isfile(s): continue
            d = os.path.join(dst, f)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copy2(s, d)
    else:
        for f in os.listdir(repo):
            s = os.path.join(repo, f)
            if os.path.isfile(s) and not f.endswith(('.o', '.a')) and f not in ('config.h', 'Makefile.configure'):
                shutil.copy2(s, os.path.join(dst, f))
        for d in ('man', 'rust'):
            if os.path.isdir(os.path.join(repo, d)): shutil.copytree(os.path.join(repo, d), os.path.join(dst, d))

class Result(object):
    __slots__ = ('rc', 'out', 'err', 'timeout')
    def __init__(s, rc, out, err, timeout=False): s.rc, s.out, s.err, s.timeout = rc, out, err, timeout
    @property
    def text(s): return s.out.decode('utf-8', 'replace')
    @property
    def etext(s): return s.err.decode('utf-8', 'replace')
    @property
    def crashed(s): return s.rc < 0 or s.rc in (99, 134, 139) or s.timeout

class Tools(object):
    def __init__(s, repo='/repo', san=False, tools=None, jobs=8):
        s.dir = tempfile.mkdtemp(prefix='ortv-build-')
        atexit.register(shutil.rmtree, s.dir, True)
        source_copy(repo, s.dir)
        env = dict(os.environ)
        for k in ('MAKEFLAGS', 'CFLAGS', 'CPPFLAGS', 'LDFLAGS', 'LDADD'): env.pop(k, None)
        env['LC_ALL'] = 'C.UTF-8'
        env['CC'] = 'clang' if san else 'gcc'
        conf = ['./configure']
        if san:
            wrap = os.path.join(s.dir, 'ortv-cc')
            with open(wrap, 'w') as f:
                f.write('#!/bin/sh\nexec clang -g -O1 -w -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined "$@"\n')
            os.chmod(wrap, 0o755)
            env['CC'] = wrap
            env['ASAN_OPTIONS'] = 'detect_leaks=0'
        s._sh(conf, env)
        s._sh(['bmake', '-j%d' % jobs] + (tools or TOOLS), env)
        s.env = dict(os.environ, LC_ALL='C.UTF-8')
        if san:
            s.env['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=99:allocator_may_return_null=1'
            s.env['UBSAN_OPTIONS'] = 'exitcode=99:halt_on_error=1'
    def _sh(s, cmd, env):
        r = subprocess.run(cmd, cwd=s.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        if r.returncode: raise BuildError('%s: %s' % (' '.join(cmd[:2]), r.stdout.decode('utf-8', 'replace')[-2000:]))
    def run(s, tool, args=(), stdin=b'', timeout=20, cwd=None):
        if isinstance(stdin, str): stdin = stdin.encode('utf-8', 'surrogateescape')
        try:
            r = subprocess.run([os.path.join(s.dir, tool)] + list(args), input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=s.env, timeout=timeout, cwd=cwd)
            return Result(r.returncode, r.stdout, r.stderr)
        except subprocess.TimeoutExpired as e:
            return Result(-1, e.stdout or b'', e.stderr or b'', True)

def pmap(fn, items, jobs=8):
    with ThreadPoolExecutor(jobs) as ex: return list(ex.map(fn, items))

class Scratch(object):
    def __init__(s):
        s.dir = tempfile.mkdtemp(prefix='ortv-scratch-')
        atexit.register(shutil.rmtree, s.dir, True)
        s.n = 0; s.lock = threading.Lock()
    def file(s, text, suffix='.ort'):
        with s.lock:
            s.n += 1; p = os.path.join(s.dir, 'f%d%s' % (s.n, suffix))
        with open(p, 'wb') as f: f.write(text.encode('utf-8', 'surrogateescape') if isinstance(text, str) else text)
        return p
