function str(v) { if (typeof v !== 'string') throw new TypeError('validator: expected a string'); }
export default {
	isDecimal(s, o) { str(s); return /^[-+]?([0-9]+)?(\.[0-9]{1,})?$/.test(s) && !['', '-', '+'].includes(s); },
	isEmail(s) { str(s); return /^[A-Za-z0-9._%+-]+@[A-Za-z0-9-]+(\.[A-Za-z0-9-]+)*\.[A-Za-z]{2,}$/.test(s); },
	normalizeEmail(s) { str(s); return s.toLowerCase(); },
	isDate(s, o) {
		str(s);
		const m = /^(\d{4})-(\d{2})-(\d{2})$/.exec(s);
		if (!m) return false;
		const d = new Date(Date.UTC(+m[1], +m[2] - 1, +m[3]));
		d.setUTCFullYear(+m[1]);
		return d.getUTCMonth() === m[2] - 1 && d.getUTCDate() === +m[3];
	},
	toDate(s) { str(s); const t = Date.parse(s); return isNaN(t) ? null : new Date(t); },
	isInt(s) { str(s); return /^[-+]?[0-9]+$/.test(s); },
	isLength(s, o) { str(s); return s.length >= (o.min ?? 0) && (o.max === undefined || s.length <= o.max); }
};
