"""C front end: run clang over a mechanical extraction of /repo's current tree
and turn the JSON AST into light Python nodes."""
import glob
import json, os, re, shutil, subprocess, sys, tempfile, atexit, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SHADOW = os.path.join(os.path.dirname(HERE), 'shadow')

class FrontError(Exception):
    pass

class N(object):
    """AST node."""
    __slots__ = ('kind', 'ch', 'ty', 'a', 'line')
    def __init__(s, kind, ch, ty, a, line):
        s.kind, s.ch, s.ty, s.a, s.line = kind, ch, ty, a, line
    def __repr__(s):
        return '<%s %s %s>' % (s.kind, s.a.get('name', s.a.get('opcode', '')), s.line)

def extract(repo, dst):
    """Copy the sources; append the queue shim to config.h. Nothing else."""
    os.makedirs(dst, exist_ok=True)
    for f in os.listdir(repo):
        if f.endswith('.c') or f.endswith('.h'):
            shutil.copy(os.path.join(repo, f), os.path.join(dst, f))
    if not os.path.exists(os.path.join(dst, 'config.h')):
        raise FrontError('no config.h: configure the scratch copy first')
    with open(os.path.join(dst, 'config.h'), 'a') as f:
        f.write('\n#include "ortv_queue.h"\n')

def _ast(dst, c):
    r = subprocess.run(['clang', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json',
                        '-D__linux__=1', '-I' + SHADOW, '-I' + dst, c], cwd=dst,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise FrontError('clang failed on %s: %s' % (c, r.stderr.decode()[:500]))
    return json.loads(r.stdout)

KEEP = ('name', 'opcode', 'castKind', 'isArrow', 'value', 'isPostfix', 'hasElse', 'hasInit', 'hasVar')

def macros(dst):
    inc = []
    for h in ['ort.h'] + sorted(os.path.basename(x) for x in glob.glob(os.path.join(dst, 'ort-*.h'))): inc += ['-include', h]
    r = subprocess.run(['clang', '-E', '-dM', '-w', '-I' + SHADOW, '-I' + dst] + inc + [ '-x', 'c', '/dev/null'], cwd=dst, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    out = {}
    for l in r.stdout.decode('utf-8', 'replace').split('\n'):
        m = re.match(r'#define (\w+) \(?(0x[0-9A-Fa-f]+|[0-9]+)[uUlL]*\)?$', l)
        if m: out[m.group(1)] = int(m.group(2), 0)
    return out

class Program(object):
    """All translation units asked for."""
    def __init__(s, dst, files):
        s.dst = dst
        s.funcs = {}       # (file,name) -> FuncDef ; also name -> for externs
        s.byname = {}
        s.enums = {}       # enumerator -> int
        s.enumof = {}      # enum tag -> list of (name,value)
        s.records = {}     # record id/tag -> [(field, type)]
        s.globals = {}     # (file,name) -> node
        s.typedefs = {}
        s.fieldrec = {}    # per TU ids: decl id -> (record, field, type)
        s.structure = {}   # record -> {field: type}
        for f, d in zip(files, ThreadPoolExecutor(8).map(lambda c: _ast(dst, c), files)):
            s._load(f, d)

    def _load(s, fname, d):
        ids = {}
        recname = {}
        cur = {'file': None, 'line': 0}
        fieldof = {}
        # First pass: records/enums/typedef
        def rec(n, parent):
            name = n.get('name')
            if not name:
                name = '%s::anon%d' % (parent, len([x for x in recname.values() if x.startswith('%s::anon' % parent)])) if parent else 'anon@' + n['id']
            recname[n['id']] = name
            flds = {}
            pend = None
            for c in n.get('inner', []):
                k = c.get('kind')
                if k == 'RecordDecl' and (c.get('completeDefinition') or c.get('inner')):
                    if c.get('name'):
                        rec(c, name); pend = None
                    else:
                        pend = rec(c, name)
                elif k == 'FieldDecl':
                    t = c['type'].get('desugaredQualType') or c['type']['qualType']
                    if pend and ('anonymous' in t or 'unnamed' in t):
                        t = 'struct ' + pend + (t[t.rindex(')') + 1:] if t.rindex(')') + 1 < len(t) else '')
                    fn = c.get('name') or ''
                    implicit = not fn
                    fieldof[c['id']] = (name, fn, t)
                    flds[fn or ('#' + c['id'])] = t
                    if implicit and pend:
                        pass
            if n.get('completeDefinition'):
                s.structure[name] = flds
            return name
        def enum(n):
            v = -1
            out = []
            for c in n.get('inner', []):
                if c.get('kind') != 'EnumConstantDecl':
                    continue
                v += 1
                for e in c.get('inner', []):
                    if 'value' in e:
                        v = int(e['value'])
                s.enums[c['name']] = v
                out.append((c['name'], v))
            if n.get('name'):
                s.enumof[n['name']] = out
        for n in d['inner']:
            k = n.get('kind')
            if k == 'RecordDecl':
                rec(n, None)
            elif k == 'EnumDecl':
                enum(n)
            elif k == 'TypedefDecl':
                s.typedefs[n['name']] = n['type'].get('desugaredQualType') or n['type']['qualType']
        # Second pass: functions and globals.
        def conv(n, line):
            if not n or 'kind' not in n:
                return N('Null', [], None, {}, line[0])
            loc = n.get('loc') or {}
            rb = (n.get('range') or {}).get('begin') or {}
            for l in (loc, loc.get('expansionLoc') or {}, rb, rb.get('expansionLoc') or {}):
                if 'line' in l:
                    line[0] = l['line']
            ty = None
            if 'type' in n:
                ty = n['type'].get('desugaredQualType') or n['type']['qualType']
            a = {k: n[k] for k in KEEP if k in n}
            if 'referencedDecl' in n:
                a['ref'] = (n['referencedDecl']['kind'], n['referencedDecl'].get('name'), n['referencedDecl']['id'])
            if 'referencedMemberDecl' in n:
                a['member'] = fieldof.get(n['referencedMemberDecl'])
            if 'argType' in n:
                a['argType'] = n['argType'].get('desugaredQualType') or n['argType']['qualType']
            if n['kind'] in ('VarDecl', 'ParmVarDecl'):
                a['id'] = n['id']; a['storage'] = n.get('storageClass')
            if n['kind'] == 'LabelStmt':
                a['label'] = n.get('declId')
            if n['kind'] == 'GotoStmt':
                a['label'] = n.get('targetLabelDeclId')
            if 'array_filler' in n:
                a['filler'] = True
            ln = line[0]
            ch = [conv(c, line) for c in n.get('inner', []) or n.get('array_filler', [])
                  if not (isinstance(c, dict) and str(c.get('kind', '')).endswith('Attr'))]
            return N(n['kind'], ch, ty, a, ln)
        for n in d['inner']:
            if n.get('kind') == 'FunctionDecl':
                body = [c for c in n.get('inner', []) if c.get('kind') == 'CompoundStmt']
                if not body:
                    continue
                loc = n.get('loc') or {}
                inc = loc.get('includedFrom') or (loc.get('expansionLoc') or {}).get('includedFrom')
                if inc:
                    continue
                line = [0]
                node = conv(n, line)
                fd = FuncDef(fname, n['name'], [c for c in node.ch if c.kind == 'ParmVarDecl'],
                             [c for c in node.ch if c.kind == 'CompoundStmt'][0], node)
                s.funcs[(fname, n['name'])] = fd
                s.byname.setdefault(n['name'], []).append(fd)
            elif n.get('kind') == 'VarDecl' and n.get('inner'):
                line = [0]
                s.globals[(fname, n['name'])] = conv(n, line)

    def find(s, name, fname=None):
        if fname and (fname, name) in s.funcs:
            return s.funcs[(fname, name)]
        c = s.byname.get(name, [])
        nonstatic = [x for x in c if not x.static]
        if nonstatic:
            return nonstatic[0]
        return None

class FuncDef(object):
    def __init__(s, fname, name, params, body, node):
        s.file, s.name, s.params, s.body, s.node = fname, name, params, body, node
        s.static = False
        s.rtype = node.ty.split('(')[0].strip() if node.ty else 'int'

if __name__ == '__main__':
    import time
    t = time.time()
    extract(sys.argv[1], sys.argv[2])
    p = Program(sys.argv[2], sys.argv[3:])
    print(len(p.funcs), time.time() - t)
    print({k: v for k, v in list(p.structure.items()) if k.startswith('diff') or k.startswith('rolemap') or k.startswith('fvalid') or k.startswith('field')})
