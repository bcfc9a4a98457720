/* better-sqlite3's interface on node:sqlite */
import { DatabaseSync } from 'node:sqlite';
const CODES = { 2067: 'SQLITE_CONSTRAINT_UNIQUE', 787: 'SQLITE_CONSTRAINT_FOREIGNKEY', 1555: 'SQLITE_CONSTRAINT_PRIMARYKEY', 1299: 'SQLITE_CONSTRAINT_NOTNULL', 1811: 'SQLITE_CONSTRAINT_TRIGGER', 275: 'SQLITE_CONSTRAINT_CHECK', 2579: 'SQLITE_CONSTRAINT_ROWID' };
function wrap(fn) {
	try { return fn(); }
	catch (e) {
		if (e.errcode !== undefined) { const x = new Error(e.message); x.code = CODES[e.errcode] ?? 'SQLITE_ERROR'; x.sql = true; throw x; }
		throw e;
	}
}
class Statement {
	constructor(db, text, big) {
		this.s = wrap(() => db.prepare(text));
		this.n = text.replace(/'[^']*'/g, '').split('?').length - 1;
		this.s.setReadBigInts(big); this.israw = false; this.text = text;
	}
	raw(x) { this.israw = x ?? true; this.s.setReturnArrays(this.israw); return this; }
	args(p) {
		const a = [];
		for (const x of p) if (Array.isArray(x)) a.push(...x); else a.push(x);
		if (a.length < this.n) throw new RangeError('Too few parameter values were provided');
		if (a.length > this.n) throw new RangeError('Too many parameter values were provided');
		for (const x of a)
			if (!(x === null || typeof x === 'number' || typeof x === 'bigint' || typeof x === 'string' || x instanceof Uint8Array))
				throw new TypeError('SQLite3 can only bind numbers, strings, bigints, buffers, and null');
		for (const x of a)
			if (typeof x === 'bigint' && BigInt.asIntN(64, x) !== x) throw new RangeError('The bound string, buffer, or bigint is too big');
		return a;
	}
	fix(r) { return Array.isArray(r) ? r.map(x => x instanceof Uint8Array ? Buffer.from(x) : x) : r; }
	run(...p) { const a = this.args(p); return wrap(() => this.s.run(...a)); }
	get(...p) { const a = this.args(p); return this.fix(wrap(() => this.s.get(...a))); }
	all(...p) { const a = this.args(p); return wrap(() => this.s.all(...a)).map(r => this.fix(r)); }
	*iterate(...p) { const a = this.args(p); for (const r of wrap(() => this.s.all(...a))) yield this.fix(r); }
}
export default class Database {
	constructor(name) { this.db = new DatabaseSync(name); this.big = false; Database.last = this; }
	defaultSafeIntegers(b) { this.big = b ?? true; return this; }
	prepare(t) { return new Statement(this.db, t, this.big); }
	exec(t) { return wrap(() => this.db.exec(t)); }
	close() { this.db.close(); }
}
