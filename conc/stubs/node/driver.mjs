/* driver.mjs MODULE PLAN: run the calls of a plan, one JSON line each */
import fs from 'node:fs';
import Database from 'better-sqlite3';
const plan = JSON.parse(fs.readFileSync(process.argv[3]));
const mod = await import(process.argv[2]);
class Abort extends Error {}
process.abort = () => { throw new Abort('abort'); };
function dec(v) {
	if (v === null) return null;
	switch (v[0]) {
	case 'i': return BigInt(v[1]);
	case 'r': return Number(v[1]);
	case 's': return v[1];
	case 'b': return Buffer.from(v[1], 'hex');
	case 'u': return undefined;
	case 'n': return Number(v[1]);
	}
	throw new Error('plan');
}
function enc(v) {
	if (v === null || v === undefined) return v === null ? null : ['u'];
	if (typeof v === 'bigint') return ['i', v.toString()];
	if (typeof v === 'number') return ['r', Object.is(v, -0) ? '-0' : String(v)];
	if (typeof v === 'string') return ['s', v];
	if (typeof v === 'boolean') return ['t', v];
	if (v instanceof Uint8Array) return ['b', Buffer.from(v).toString('hex')];
	if (Array.isArray(v)) return ['l', v.map(enc)];
	const o = {};
	for (const k of Object.keys(v)) o[k] = enc(v[k]);
	return ['o', o];
}
function obj(x) {
	if (x === null || x === undefined) return enc(x);
	const o = { raw: enc(x.obj) };
	try { const e = x.export(); o.exp = enc(e); o.json = JSON.stringify(e); } catch (e) { o.err = String(e && e.message); }
	return o;
}
const out = [];
let db = null;
if (plan.db) db = mod.ort(plan.db, plan.args ?? undefined);
for (const c of plan.calls) {
	const r = {};
	let stage = 'role';
	try {
		if (c.what === 'roles') {
			const x = db.connect();
			for (const n of c.path) x.db_role(n);
			r.role = x.db_role_current();
		} else if (c.what === 'valid') {
			stage = 'call';
			const v = mod.ortvalid.ortValids[c.key];
			if (typeof v !== 'function') r.none = true;
			else r.v = enc(v(dec(c.v)));
		} else {
			const x = db.connect();
			if (c.role !== 'default') x.db_role(c.role);
			stage = 'call';
			const a = c.args.map(dec);
			if (typeof x[c.fn] !== 'function') { r.none = true; }
			else {
				if (c.mut) Database.last.exec('BEGIN');
				try {
					if (c.cb) { const l = []; x[c.fn](...a, (o) => { l.push(obj(o)); }); r.l = l; }
					else {
						const v = x[c.fn](...a);
						if (c.ret === 'obj') r.l = v === null ? [] : [obj(v)];
						else if (c.ret === 'list') r.l = v.map(obj);
						else r.v = enc(v);
					}
				} finally {
					if (c.mut) {
						r.dump = {};
						for (const [t, cols] of Object.entries(plan.tables)) {
							const s = Database.last.prepare('SELECT ' + cols.join(',') + ' FROM "' + t + '"');
							s.raw(true); r.dump[t] = s.all().map(x => x.map(enc));
						}
						Database.last.exec('ROLLBACK');
					}
				}
				r.argc = x[c.fn].length;
			}
		}
	} catch (e) {
		r.stage = stage;
		if (e instanceof Abort) r.abort = true; else { r.err = String(e && e.message || e); r.code = e && e.code; r.sql = e && e.sql; }
	}
	out.push(JSON.stringify(r));
}
fs.writeSync(1, out.join('\n') + '\n');
