"""Oracles of the SQL generators: schema and upgrades, in real databases."""
import os, re, sqlite3, random
from o_text import *
import sql

def p02(ctx):
    def one(i):
        c, src, w = gen(i, evil=0.3 if i % 2 else 0.0)
        r = run(ctx, 'ort-sql', src)
        if r is None: return
        ctx.case(src, src)
        fs = {'config.ort': src, 'output.sql': r.text}
        db = sqlite3.connect(':memory:')
        try:
            try: db.executescript(r.text)
            except (sqlite3.Error, sqlite3.Warning, ValueError) as e: return ctx.problem('ort-sql output is no valid SQL: %s' % e, fs, 'ort-sql config.ort | sqlite3')
            got, extra = sql.schema(db)
            d = sql.cmp_schema(sql.want(c), got, extra)
            if d: return ctx.problem('ort-sql: ' + '; '.join(d[:3]), fs, 'ort-sql config.ort | sqlite3')
        finally: db.close()
    ctx.each(5000, one, 60)

NN = 'add-notnull-without-default'
RD = 'add-reference-with-default'
DR = 'drop-referenced-table'
def incompatible(a, b, destruct):
    """why the upgrade must be refused"""
    why = []
    A = dict((x.name, x) for x in a.structs); B = dict((x.name, x) for x in b.structs)
    for qa, qb, k in ((a.enums, b.enums, 'enumeration'), (a.bits, b.bits, 'bitfield')):
        X = dict((e.name, e) for e in qa); Y = dict((e.name, e) for e in qb)
        for n in X:
            if n not in Y:
                if not destruct: why.append('dropped %s %s' % (k, n))
                continue
            P = dict((i.name, i.value) for i in X[n]['items']); Q = dict((i.name, i.value) for i in Y[n]['items'])
            for m in P:
                if m not in Q:
                    if not destruct: why.append('dropped %s item %s.%s' % (k, n, m))
                elif P[m] != Q[m]: why.append('renumbered %s item %s.%s' % (k, n, m))
    for n in A:
        if n not in B:
            if not destruct: why.append('dropped table %s' % n)
            continue
        P = dict((f.name, f) for f in A[n].fields); Q = dict((f.name, f) for f in B[n].fields)
        for m in Q:
            if m not in P and Q[m].rowid: why.append('added rowid %s.%s' % (n, m))
        for m, f in P.items():
            g = Q.get(m)
            if g is None:
                if not destruct and f.type != 'struct': why.append('dropped column %s.%s' % (n, m))
                continue
            if f.type != g.type or (f.of or None) != (g.of or None): why.append('changed type of %s.%s' % (n, m))
            if f.type == 'struct' or g.type == 'struct': continue
            if bool(f.null) != bool(g.null) or bool(f.rowid) != bool(g.rowid): why.append('changed null or rowid of %s.%s' % (n, m))
            if (f.actup or 'none', f.actdel or 'none') != (g.actup or 'none', g.actdel or 'none'): why.append('changed actions of %s.%s' % (n, m))
            if (f.ref or None) != (g.ref or None): why.append('changed reference of %s.%s' % (n, m))
    return why

SQLM = ['m_field_add', 'm_field_del', 'm_field_flag', 'm_field_type', 'm_field_ref', 'm_field_unref', 'm_field_default', 'm_unique', 'm_st_add', 'm_st_del', 'm_item_add', 'm_item_del', 'm_item_value', 'm_en_add', 'm_en_del', 'm_field_of', 'm_op_del', 'm_field_order', 'm_role_move', 'm_field_limit', 'm_item_order', 'm_st_order', 'm_field_doc', 'm_field_add', 'm_unique', 'm_st_add']
SAFE = ['m_field_add', 'm_unique', 'm_st_add', 'm_item_add', 'm_en_add', 'm_field_order', 'm_op_del', 'm_field_default', 'm_st_order', 'm_field_limit', 'm_field_doc']
def p01(ctx):
    def one(i):
        d = i % 3 == 0
        c, e, done = pair(i, (1, 2, 3, 5)[i % 4], (SQLM, SAFE, SQLM, SAFE, SQLM + ['m_st_del', 'm_field_del', 'm_st_del'])[i % 5], maxstructs=3, maxfields=4, roles=0.2, ops=0.4, docs=0.2)
        if i % 7 == 0: c, e = e, c
        sa, sb = to_ort(c), to_ort(e)
        fa, fb = ctx.scratch.file(sa), ctx.scratch.file(sb)
        try:
            r = ctx.t.run('ort-sqldiff', (['-d'] if d else []) + [fa, fb])
            if r.rc and not r.crashed and not all(ctx.t.run('ort', [f]).rc == 0 for f in (fa, fb)): return ctx.trivial()
        finally: os.unlink(fa); os.unlink(fb)
        fs = {'old.ort': sa, 'new.ort': sb, 'output.sql': r.text, 'stderr': r.etext[-800:]}
        cmd = 'ort-sqldiff %sold.ort new.ort' % ('-d ' if d else '')
        if r.crashed: return ctx.problem('ort-sqldiff crashes (%d)' % r.rc, fs, cmd)
        why = incompatible(c, e, d)
        ctx.case((sa, sb, d), '%s: %s' % (done, r.text[:500]))
        if why:
            if r.rc == 0: return ctx.problem('ort-sqldiff accepts an incompatible upgrade (%s)' % why[0], fs, cmd)
            if not r.etext.strip(): return ctx.problem('ort-sqldiff refuses without a message', fs, cmd)
            if sql.nocomment(r.text).strip(): return ctx.problem('ort-sqldiff refuses but prints statements', fs, cmd)
            return
        if r.rc: return ctx.problem('ort-sqldiff refuses a compatible upgrade (%s): %s' % (done, r.etext[-200:]), fs, cmd)
        text = r.text; bare = sql.nocomment(text)
        sts, rest = sql.statements(bare)
        if rest.strip(): return ctx.problem('ort-sqldiff prints an incomplete statement', fs, cmd)
        for s in sts:
            if re.search(r'\bDROP\s+TABLE\b', s, re.I):
                if not d: return ctx.problem('ort-sqldiff drops a table without -d: ' + s.strip(), fs, cmd)
                t = s.split()[-1].strip(';')
                if any(x.name == t for x in e.structs): return ctx.problem('ort-sqldiff drops a table of the new configuration: ' + s.strip(), fs, cmd)
            if re.search(r'\bDROP\s+COLUMN\b', s, re.I): return ctx.problem('ort-sqldiff drops a column: ' + s.strip(), fs, cmd)
            if re.match(r'\s*(DELETE|UPDATE|REPLACE|INSERT)\b', s, re.I): return ctx.problem('ort-sqldiff changes rows: ' + s.strip(), fs, cmd)
        oldf = dict(((st.name, f.name), f) for st in c.structs for f in st.fields if f.type != 'struct')
        newf = dict(((st.name, f.name), f) for st in e.structs for f in st.fields if f.type != 'struct')
        olds = set(st.name for st in c.structs); news = set(st.name for st in e.structs)
        added = [k for k in newf if k not in oldf and k[0] in olds]
        dropped = set(k for k in oldf if k not in newf and k[0] in news)
        for k in dropped:
            if not re.search(r'--[^\n]*\b%s\b[^\n]*\b%s\b' % (re.escape(k[0]), re.escape(k[1])), text): return ctx.problem('ort-sqldiff does not note the dropped column %s.%s' % k, fs, cmd)
        # the old database, with rows, and the script
        n = 1 if any(newf[k].unique or any(k[1] in u for st in e.structs if st.name == k[0] for u in st.uniques) for k in added) else 2
        db = sqlite3.connect(':memory:', isolation_level=None)
        try:
            db.executescript(sql.ddl(c)); sql.fill(db, c, n)
            before = {}
            for st in c.structs:
                cols = [f.name for f in st.fields if f.type != 'struct' ]
                before[st.name] = cols, db.execute('SELECT %s FROM "%s" ORDER BY rowid' % (','.join('"%s"' % x for x in cols), st.name)).fetchall()
            refd = set(f.ref[0] for st in c.structs for f in st.fields if f.ref and f.ref[0] != st.name)
            dr = False
            for s in sts:
                try: db.execute(s)
                except sqlite3.Error as x:
                    key = None; m = str(x); s2 = None
                    mm = re.match(r'\s*ALTER\s+TABLE\s+(\w+)\s+ADD\s+COLUMN\s+(\w+)', s, re.I)
                    f = mm and newf.get((mm.group(1), mm.group(2)))
                    dm = re.match(r'\s*DROP\s+TABLE\s+(\w+)', s, re.I)
                    if f and 'NOT NULL column' in m and f.default is None and not f.null and not f.rowid: key = NN; s2 = re.sub(r'NOT\s+NULL', '', s, flags=re.I)
                    elif f and 'REFERENCES column' in m and f.default is not None and f.ref: key = RD; s2 = re.sub(r'DEFAULT\s+.*;', ';', s, flags=re.S)
                    elif dm and 'FOREIGN KEY' in m and dm.group(1) in refd and dm.group(1) not in news: key = DR; s2 = 'PRAGMA foreign_keys=OFF; ' + s + ' PRAGMA foreign_keys=ON;'
                    elif dm and dr and dm.group(1) not in news and ('FOREIGN KEY' in m or 'no such table' in m): key = DR; s2 = 'PRAGMA foreign_keys=OFF; ' + s + ' PRAGMA foreign_keys=ON;'   # what the earlier drop left behind
                    elif 'UNIQUE constraint' in m or 'unique' in m.lower(): return
                    dr = dr or key == DR
                    if key is None: return ctx.problem('a statement of ort-sqldiff fails: %s: %s' % (s.strip(), m), fs, cmd)
                    ctx.problem('a statement of ort-sqldiff fails: %s: %s' % (s.strip(), m), fs, cmd, key=key)
                    db.executescript(s2)
            got, extra = sql.schema(db)
            w = sql.want(e)
            for k in added:
                # what the known finding's statement was replaced by
                if newf[k].default is None and not newf[k].null:
                    w[k[0]]['cols'] = [x if x[0] != k[1] else x[:2] + ((next((g[2] for g in got.get(k[0], {'cols': []})['cols'] if g[0] == k[1]), True)),) + x[3:] for x in w[k[0]]['cols']]
                    if not re.search(r'ADD\s+COLUMN\s+%s\b[^;]*NOT\s+NULL' % k[1], bare, re.I): return ctx.problem('ort-sqldiff adds %s.%s without NOT NULL' % k, fs, cmd)
            dd = sql.cmp_schema(w, got, extra, False, dropped)
            if dd: return ctx.problem('the upgraded database differs (%s): %s' % (done, '; '.join(dd[:3])), fs, cmd)
            for t, (cols, rows) in before.items():
                if t not in got:
                    continue
                now = db.execute('SELECT %s FROM "%s" ORDER BY rowid' % (','.join('"%s"' % x for x in cols), t)).fetchall()
                if now != rows and not (d and any(f.ref and f.ref[0] not in news for st in c.structs if st.name == t for f in st.fields)): return ctx.problem('ort-sqldiff changes rows of %s: %s became %s' % (t, rows, now), fs, cmd)
                for k in added:
                    if k[0] != t: continue
                    f = newf[k]
                    if f.default is None: dv = None
                    else:
                        dv = defval(e, f)
                        if f.type in ('int', 'bit', 'bits', 'epoch', 'date'): dv = int(dv)
                        elif f.type == 'real': dv = float(dv)
                        elif f.type == 'enum': dv = [i.value for en in e.enums if en.name == f.of for i in en['items'] if i.name == f.default][0]
                    if f.default is not None and f.ref: continue
                    vs = [x[0] for x in db.execute('SELECT "%s" FROM "%s"' % (k[1], t))]
                    if any(v != dv for v in vs): return ctx.problem('existing rows have %s in the new column %s.%s, not %r' % (vs, k[0], k[1], dv), fs, cmd)
        finally: db.close()
    ctx.each(5000, one, 60)
