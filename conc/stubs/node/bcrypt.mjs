export default {
	hashSync(v, cost) {
		if (typeof v !== 'string' || typeof cost !== 'number') throw new Error('hashSync: bad arguments');
		return 'H:' + v;
	},
	compareSync(v, h) {
		if (typeof v !== 'string' || typeof h !== 'string') throw new Error('compareSync: bad arguments');
		return h === 'H:' + v;
	}
};
