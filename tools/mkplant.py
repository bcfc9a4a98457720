"""helpers to write seeded/<id>/ from edits of /repo's files (used while building, not by any check)"""
import difflib, json, os, subprocess
R = os.environ.get('PLANT_REPO', '/repo'); S = '/verif/seeded'
def plant(id, prop, needs, breaks, edits, demo, files={}):
    d = os.path.join(S, id); os.makedirs(d, exist_ok=True)
    out = ''
    by = {}
    for f, a, b in edits: by.setdefault(f, []).append((a, b))
    for f, es in by.items():
        old = new = open(os.path.join(R, f)).read()
        for a, b in es:
            n = new.count(a)
            assert n == 1, '%s: %s: %d matches of %r' % (id, f, n, a[:60])
            new = new.replace(a, b)
        out += ''.join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), 'a/' + f, 'b/' + f))
        # the lines must be the original ones
        bl = subprocess.run(['git', '-C', R, 'blame', '-s', 'HEAD', '--', f], stdout=subprocess.PIPE).stdout.decode().splitlines()
        ol, nl = old.splitlines(), new.splitlines()
        for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, ol, nl).get_opcodes():
            if tag in ('replace', 'delete'):
                for i in range(i1, i2):
                    if not bl[i].startswith('^'): print('%s: %s:%d is a line of ours: %s' % (id, f, i + 1, bl[i]))
            elif tag == 'insert': print('%s: note: pure insertion at %s:%d' % (id, f, i1))
    open(os.path.join(d, 'patch.diff'), 'w').write(out)
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# run in /repo after the build: exit 0 if the property holds on this input\nH=$(cd "$(dirname "$0")" && pwd)\nW=$(mktemp -d); trap \'/bin/rm -rf "$W"\' EXIT\n' + demo.strip('\n') + '\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    for n, t in files.items(): open(os.path.join(d, n), 'w').write(t)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
