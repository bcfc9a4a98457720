"""Expected differences between two configuration models, as the set of lines
ort-diff shall print (positions of 'where' maps)."""
from expect import *

def limset(f): return sorted(set((o, limval(f, v)) for o, v in f.limits)), len(f.limits)

def differences(a, wa, b, wb):
    out = set(); EA = expect(a); EB = expect(b)
    def add(kind, key): out.add(('+', kind, wb[key]))
    def rem(kind, key): out.add(('-', kind, wa[key]))
    def pair(kind, ka, kb, attrs):
        if attrs:
            out.add(('@@', kind, wa[ka], wb[kb]))
            for t in attrs:
                if t: out.add(('!', kind, t, wa[ka], wb[kb]))
        return bool(attrs)
    # roles
    if a.hasroles != b.hasroles: out.add(('+' if b.hasroles else '-', 'roles', None))
    elif a.hasroles:
        A = dict((x.name, x) for x in a.roles); B = dict((x.name, x) for x in b.roles); ch = False
        for n in A:
            if n not in B: rem('role', ('role', n)); ch = True; continue
            t = []
            x, y = EA['rq'][n], EB['rq'][n]
            if x['parent'] != y['parent']: t.append('parent')
            if x['doc'] != y['doc']: t.append('comment')
            if sorted(x['subrq']) != sorted(y['subrq']): t.append('children')
            ch |= pair('role', ('role', n), ('role', n), t)
        for n in B:
            if n not in A: add('role', ('role', n)); ch = True
        if ch: out.add(('@@', 'roles', None, None))
    # enumerations and bit fields
    for qa, qb, jq, kind, ikind, wk, wi in ((a.enums, b.enums, 'eq', 'enm', 'eitem', 'enum', 'eitem'), (a.bits, b.bits, 'bq', 'bitf', 'bitidx', 'bits', 'bitidx')):
        A = dict((x.name, x) for x in qa); B = dict((x.name, x) for x in qb)
        for n in A:
            if n not in B: rem(kind, (wk, n))
        for n in B:
            if n not in A: add(kind, (wk, n)); continue
            x, y = EA[jq][n], EB[jq][n]; t = []
            if x['doc'] != y['doc']: t.append('comment')
            if x['labelsNull'] != y['labelsNull'] or x.get('labelsUnset') != y.get('labelsUnset'): t.append('labels')
            IA = dict((i.name, i) for i in A[n]['items']); IB = dict((i.name, i) for i in B[n]['items'])
            sub = False
            for m in IA:
                if m not in IB: rem(ikind, (wi, n, m)); sub = True
            for m in IB:
                if m not in IA: add(ikind, (wi, n, m)); sub = True; continue
                u = []
                if IA[m].value != IB[m].value: u.append('value')
                if x[jq][m]['doc'] != y[jq][m]['doc']: u.append('comment')
                if x[jq][m]['labels'] != y[jq][m]['labels']: u.append('labels')
                sub |= pair(ikind, (wi, n, m), (wi, n, m), u)
            pair(kind, (wk, n), (wk, n), t + ([None] if sub else []))
    # structures
    A = dict((x.name, x) for x in a.structs); B = dict((x.name, x) for x in b.structs)
    for n in A:
        if n not in B: rem('strct', ('struct', n))
    for n in B:
        if n not in A: add('strct', ('struct', n)); continue
        x, y = EA['sq'][n], EB['sq'][n]; S, T = A[n], B[n]; sub = False; t = []
        if x['doc'] != y['doc']: t.append('comment')
        FA = dict((f.name, f) for f in S.fields); FB = dict((f.name, f) for f in T.fields)
        for m in FA:
            if m not in FB: rem('field', ('field', n, m)); sub = True
        for m in FB:
            if m not in FA: add('field', ('field', n, m)); sub = True; continue
            u = []; f, g = FA[m], FB[m]; p, q = x['fq'][m], y['fq'][m]
            if p['rolemap'] != q['rolemap']: u.append('rolemap')
            if f.type != g.type: u.append('type')
            if (p['actup'], p['actdel']) != (q['actup'], q['actdel']): u.append('actions')
            fl = lambda z: (bool(z.rowid), bool(z.unique) and not z.rowid, bool(z.noexport), bool(z.null) and z.type != 'struct', z.default is not None)
            if fl(f) != fl(g): u.append('flags')
            if f.type == g.type == 'bits' and f.of != g.of: u.append('bitf')
            if f.type == g.type == 'enum' and f.of != g.of: u.append('enum')
            if f.default is not None and g.default is not None and f.type == g.type:
                if defval(a, f) != defval(b, g) or (f.type == 'enum' and f.of != g.of): u.append('def')
            if p.get('ref') != q.get('ref'): u.append('ref')
            if limset(f)[1] != limset(g)[1] or (limset(f)[1] and (f.type != g.type or limset(f) != limset(g))): u.append('valids')
            if p['doc'] != q['doc']: u.append('comment')
            sub |= pair('field', ('field', n, m), ('field', n, m), u)
        if S.ins and not T.ins: rem('insert', ('insert', n)); sub = True
        elif T.ins and not S.ins: add('insert', ('insert', n)); sub = True
        elif S.ins:
            u = []
            if x['insert']['rolemap'] != y['insert']['rolemap']: u.append('rolemap')
            if [f.name for f in S.fields] != [f.name for f in T.fields]: u.append('params')
            sub |= pair('insert', ('insert', n), ('insert', n), u)
        US = lambda z: set(tuple(sorted(u)) for u in z.uniques)
        for i, u in enumerate(S.uniques):
            if tuple(sorted(u)) not in US(T): rem('unique', ('unique', n, i)); sub = True
        for i, u in enumerate(T.uniques):
            if tuple(sorted(u)) not in US(S): add('unique', ('unique', n, i)); sub = True
        def upar(u): return u['mrq'], u['crq']
        def ops(kind, jk, qa, qb, named, attrs, wk):
            nonlocal sub
            def objs(q, j):
                no = {}; an = []; k = 0
                for i, u in enumerate(q):
                    if u.name: no[(u.type or kind, u.name)] = (i, j[jk]['named'][u.name])
                    else: an.append((i, j[jk]['anon'][k], u.type or kind)); k += 1
                return no, an
            na, aa = objs(qa, x); nb, ab = objs(qb, y)
            for k, (i, u) in na.items():
                if k not in nb: rem(named, (wk, n, i)); sub = True
            for k, (i, u) in nb.items():
                if k not in na: add(named, (wk, n, i)); sub = True; continue
                o, v = na[k]
                t2 = [nm for nm, fn in attrs if fn(v) != fn(u)]
                sub |= pair(named, (wk, n, o), (wk, n, i), t2)
            def sig(e): return e[2], [fn(e[1]) for nm, fn in attrs]
            for e in aa:
                if not any(sig(e) == sig(g) for g in ab): rem(named, (wk, n, e[0])); sub = True
            for e in ab:
                if not any(sig(e) == sig(g) for g in aa): add(named, (wk, n, e[0])); sub = True
        UA = [('params', upar), ('comment', lambda u: u['doc']), ('rolemap', lambda u: u['rolemap']), ('flags', lambda u: u['flags'])]
        ops('update', 'uq', S.updates, T.updates, 'update', UA, 'update')
        ops('delete', 'dq', S.deletes, T.deletes, 'update', UA, 'delete')
        SA = [('params', lambda u: [(z['fname'], z['op']) for z in u['sntq']]), ('order', lambda u: [(z['fname'], z['op']) for z in u['ordq']]),
              ('aggr', lambda u: u['aggr'] and (u['aggr']['op'], u['aggr']['fname'])), ('group', lambda u: u['group'] and u['group']['fname']),
              ('distinct', lambda u: u['dst'] and u['dst']['fname']), ('comment', lambda u: u['doc']), ('limit', lambda u: u['limit']), ('offset', lambda u: u['offset']),
              ('rolemap', lambda u: u['rolemap'])]
        ops('search', 'sq', S.searches, T.searches, 'search', SA, 'search')
        pair('strct', ('struct', n), ('struct', n), t + ([None] if sub else []))
    return out

import re
RE1 = re.compile(r'^([+-]) (\w+) (.*):(\d+):(\d+)$')
RE2 = re.compile(r'^(@@|!|  ?)\s*(?:(\w+) )?(\w+) (\S+?):(\d+):(\d+) -> (\S+?):(\d+):(\d+)( @@)?$')
def parse(text, fa, fb):
    """lines of ort-diff: changes and the pairs reported as the same"""
    out = set(); same = set(); odd = []; dup = []
    for l in text.split('\n')[2:]:
        if not l or re.match(r'^@@ (roles|enumerations|bitfields|strcts) @@$', l): continue
        m = RE1.match(l)
        if m:
            sg, k, f, x, y = m.groups()
            if f != (fb if sg == '+' else fa) and k != 'roles': odd.append(l)
            e = (sg, k, None if k == 'roles' else (int(x), int(y)))
        else:
            m = re.match(r'^(@@ |! |  )(?:(\w+) )?(\w+) (\S*):(\d+):(\d+) -> (\S*):(\d+):(\d+)( @@)?$', l)
            if not m: odd.append(l); continue
            sg, at, k, f, x1, y1, g, x2, y2, end = m.groups(); sg = sg.strip()
            if sg == '!': at, k = k, at  # "! kind attr" or "! attr kind"
            p, q = (int(x1), int(y1)), (int(x2), int(y2))
            if k == 'roles': p = q = None
            elif (f, g) != (fa, fb): odd.append(l)
            if sg == '!':
                e = ('!', k, at, p, q)
                # written as "attribute kind"
            elif sg == '@@': e = ('@@', k, p, q)
            else: same.add((k, p, q)); continue
        out.add(e)
    return out, same, odd
