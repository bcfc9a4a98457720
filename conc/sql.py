"""SQLite side of the models: schema by PRAGMA, independent DDL and rows."""
import sqlite3
from expect import *

AFF = {'bit': 'INTEGER', 'bits': 'INTEGER', 'date': 'INTEGER', 'epoch': 'INTEGER', 'int': 'INTEGER', 'enum': 'INTEGER', 'real': 'REAL', 'blob': 'BLOB', 'text': 'TEXT', 'email': 'TEXT', 'password': 'TEXT'}
ACT = {None: 'NO ACTION', 'none': 'NO ACTION', 'restrict': 'RESTRICT', 'nullify': 'SET NULL', 'cascade': 'CASCADE', 'default': 'SET DEFAULT'}

def aff(decl):
    d = decl.upper()
    if 'INT' in d: return 'INTEGER'
    if 'CHAR' in d or 'CLOB' in d or 'TEXT' in d: return 'TEXT'
    if 'BLOB' in d or not d: return 'BLOB'
    if 'REAL' in d or 'FLOA' in d or 'DOUB' in d: return 'REAL'
    return 'NUMERIC'

def schema(db):
    """what a database declares"""
    out = {}
    q = lambda s: '"' + s.replace('"', '""') + '"'
    for (t,) in db.execute("SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%'"):
        cols = [(r[1], aff(r[2]), bool(r[3]), r[4], bool(r[5])) for r in db.execute('PRAGMA table_info(%s)' % q(t))]
        fks = {}
        for r in db.execute('PRAGMA foreign_key_list(%s)' % q(t)): fks.setdefault(r[0], []).append((r[3], r[2], r[4], r[5], r[6]))
        fk = sorted(tuple(v) for v in fks.values())
        ix = []; other = []
        for r in db.execute('PRAGMA index_list(%s)' % q(t)):
            c = tuple(sorted(str(x[2]) for x in db.execute('PRAGMA index_info(%s)' % q(r[1]))))
            if r[3] == 'pk': continue
            (ix if r[2] and not r[4] else other).append(c)
        out[t] = dict(cols=cols, fk=fk, unique=sorted(ix), other=sorted(other))
    extra = [r for r in db.execute("SELECT type, name FROM sqlite_master WHERE type NOT IN ('table', 'index')")]
    return out, extra

def want(c):
    out = {}
    for st in c.structs:
        cols = []; fk = []; un = []
        for f in st.fields:
            if f.type == 'struct': continue
            cols.append((f.name, AFF[f.type], not f.null and not f.rowid, bool(f.rowid)))
            if f.ref: fk.append(((f.name, f.ref[0], f.ref[1], ACT[f.actup], ACT[f.actdel]),))
            if f.unique and not f.rowid: un.append((f.name,))
        for u in st.uniques: un.append(tuple(sorted(u)))
        out[st.name] = dict(cols=cols, fk=sorted(fk), unique=sorted(set(un)))
    return out

def cmp_schema(w, got, extra, ordered=True, dropped=None):
    """differences between the wanted and the actual schema; dropped: columns
    (table, name) which may remain"""
    d = []
    if extra: d.append('unexpected objects %s' % extra)
    dropped = dropped or set()
    for t in w:
        if t not in got: d.append('no table %s' % t); continue
        g = got[t]
        gc = [(a, b, n, p) for a, b, n, df, p in g['cols'] if (t, a) not in dropped]
        if (gc if ordered else sorted(gc)) != (w[t]['cols'] if ordered else sorted(w[t]['cols'])): d.append('columns of %s: expected %s, got %s' % (t, w[t]['cols'], gc))
        gf = [x for x in g['fk'] if (t, x[0][0]) not in dropped]
        if gf != w[t]['fk']: d.append('foreign keys of %s: expected %s, got %s' % (t, w[t]['fk'], gf))
        if g['unique'] != w[t]['unique']: d.append('unique indexes of %s: expected %s, got %s' % (t, w[t]['unique'], g['unique']))
        if g['other']: d.append('unexpected indexes of %s: %s' % (t, g['other']))
    for t in got:
        if t not in w: d.append('unexpected table %s' % t)
    return d

def ddl(c):
    """an independent schema for the model"""
    o = []
    for st in c.structs:
        l = []
        for f in st.fields:
            if f.type == 'struct': continue
            l.append('"%s" %s%s' % (f.name, AFF[f.type], ' PRIMARY KEY' if f.rowid else '' if f.null else ' NOT NULL'))
        for f in st.fields:
            if f.ref: l.append('FOREIGN KEY("%s") REFERENCES "%s"("%s") ON UPDATE %s ON DELETE %s' % ((f.name,) + f.ref + (ACT[f.actup], ACT[f.actdel])))
        o.append('CREATE TABLE "%s" (%s);' % (st.name, ', '.join(l)))
        us = [[f.name] for f in st.fields if f.unique and not f.rowid and f.type != 'struct'] + st.uniques
        for u in us: o.append('CREATE UNIQUE INDEX "unique_%s__%s" ON "%s"(%s);' % (st.name, '_'.join(sorted(u)), st.name, ', '.join('"%s"' % x for x in sorted(u))))
    return '\n'.join(o)

def val(f, k):
    t = f.type
    if t in ('text', 'email', 'password'): return 't%d' % k
    if t == 'real': return k + 0.5
    if t == 'blob': return b'b%d' % k
    return k

def fill(db, c, n=2, nulls=True):
    """the same n rows in each table; consistent foreign keys"""
    db.execute('PRAGMA foreign_keys=OFF')
    for st in c.structs:
        fs = [f for f in st.fields if f.type != 'struct']
        for k in range(1, n + 1):
            vs = [None if f.null and nulls and k % 2 == 0 and not f.rowid else val(f, k) for f in fs]
            db.execute('INSERT INTO "%s" (%s) VALUES (%s)' % (st.name, ','.join('"%s"' % f.name for f in fs), ','.join('?' * len(fs))), vs)
    db.commit()
    db.execute('PRAGMA foreign_keys=ON')

def statements(text):
    """split a script into statements (sqlite3 decides where they end)"""
    out = []; cur = ''
    for ch in text:
        cur += ch
        if ch == ';' and sqlite3.complete_statement(cur): out.append(cur); cur = ''
    return out, cur

def nocomment(s):
    """an SQL text without its comments"""
    o = ''; i = 0; n = len(s)
    while i < n:
        if s.startswith('--', i):
            j = s.find('\n', i); i = n if j < 0 else j
        elif s.startswith('/*', i):
            j = s.find('*/', i + 2); i = n if j < 0 else j + 2
        elif s[i] in '\'"':
            j = i + 1
            while j < n and s[j] != s[i]: j += 1
            o += s[i:j + 1]; i = j + 1
        else: o += s[i]; i += 1
    return o
