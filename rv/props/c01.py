from ..core import STEPS, Mon, Prop, Violation
from .. import gen
from ..driver import Driver, compare_structure, program


class C01(Prop):
	id = 'C01'
	clauses = ('structure', 'membership', 'same-object', 'new-object', 'accepts', 'rejects', 'foreign', 'large')
	rule = (
		'a case is a seeded program of 5-60 edit calls over 2-8 names (self-loops, parallel edges, removals by node/edge/graph, re-adding, rejected calls), '
		'followed by all public views after every call (or every second to fifth call); non-trivial: at least one removal and one edge; distinct by program text'
	)
	assumptions = ('single-threaded client', 'node names are strings', 'constructor Node(...)/Edge(...) is only used with fresh names and ids')
	quick = 1600
	thorough = 40000

	def generate(self, rng, index, tier):
		names = gen.name_pool(rng, rng.randint(2, 8), hostile=rng.choice([0, 0, 0.5, 'family+int']))
		return dict(ops=program(rng, rng.choice([5, 12, 25, 40, 60]), names, p=0.15), fresh=rng.random() < 0.5, every=rng.choice([1, 1, 1, 2, 3, 5]))

	def execute(self, case, mon):
		d = Driver(mon)
		changed = 0
		for op in case['ops']:
			outcome = d.run(op)
			mon.events[f'{op[0]}:{outcome}'] += 1
			if outcome != 'skip':
				changed += 1
				# what was seen before several changes must not be shown after them
				if changed % case['every'] == 0:
					compare_structure(d, light=(changed // case['every']) % 3 != 0)
		compare_structure(d)

	def extra(self, report, tier, seed):
		"""more nodes, parallel edges and neighbours of one node than the workload has"""
		mon = Mon()

		def execute(case, _):
			d = Driver(Mon())
			names = [f'{i}' for i in range(300)]
			for n in names:
				d.op_add(n)
			for n in names[1:130]:
				d.op_conn('0', n)
				d.op_conn(n, '0', 'back')
			for i in range(290):
				d.op_conn('200', '201', i)
			for i in range(270):
				d.op_conn('202', '202', i)
			STEPS.arm(self.step_limit * 4)  # one comparison of a large graph is thousands of operations
			compare_structure(d, light=True)
			for i in (0, 128, 255, 256, 257, 289):
				d.op_rmedge('200', '201', i)
			d.op_rmnode('0')
			d.op_rmnode('299')
			d.op_add('0')
			d.op_conn('0', '257', 256)
			compare_structure(d)
			d.op_rmnode('200')
			d.op_rmnode('202')
			compare_structure(d)
			mon.clauses.update(large=sum(d.mon.clauses.values()))
		v = self.run_case(None, mon, execute=execute)
		if v is not None:
			raise Violation(v.clause, f'in a large graph: {v.message}')
		report['clauses'].update(mon.clauses)

	def fingerprint(self, case, mon):
		kinds = {op[0] for op in case['ops']}
		if not ({'rmnode', 'rmedge', 'rmany', 'rmedges'} & kinds and {'conn', 'Edge'} & kinds):
			return None
		return super().fingerprint(case, mon)


PROP = C01()
