from ..core import Prop
from .. import gen
from ..driver import Driver, compare_structure, compare_content, program


class C02(Prop):
	id = 'C02'
	clauses = ('content', 'structure', 'same-object', 'new-object', 'warnings', 'rejects', 'protected', 'accepts')
	rule = (
		'a case is a seeded program of duplicate-heavy adds and connects (all policies, all subsets of label/value/style, falsy values) and rejected calls; '
		'labels, values, styles and structure of everything are compared with the model after every call; non-trivial: at least one duplicate or rejection was observed'
	)
	assumptions = ('values given by the caller are not mutated by the caller',)
	quick = 6000
	thorough = 40000

	def generate(self, rng, index, tier):
		names = gen.name_pool(rng, rng.randint(1, 5), hostile=rng.choice([0, 0.5, 'family+int']))
		weights = dict(add=30, conn=40, bad=12, Node=1, Edge=1, rmnode=2, rmedge=1, rmany=3, rmedges=1, readd=3, move=1, set=2, setedge=2)
		ops = program(rng, rng.choice([4, 10, 20, 40]), names, weights, p=rng.choice([0.3, 0.6]))
		return dict(ops=ops, overwrite=rng.random() < 0.4)

	def execute(self, case, mon):
		d = Driver(mon, overwrite=case['overwrite'])
		for op in case['ops']:
			outcome = d.run(op)
			mon.event(f'{op[0]}:{outcome}')
			if outcome != 'skip':
				compare_content(d)
			if outcome == 'rejected':
				compare_structure(d, light=True)
		compare_structure(d)

	def fingerprint(self, case, mon):
		if not any(t.startswith('raise:') or ':duplicate' in t for t in mon.trace):
			return None
		return super().fingerprint(case, mon)


PROP = C02()
