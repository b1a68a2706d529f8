import json
import os
import random
import subprocess
import sys

from ..core import Prop, Violation
from .. import env, gen, observe
from ..driver import attributes, program
from ..objects import make_spec

RUNNER = os.path.join(env.VERIF, 'rv', 'outcome.py')
# hash seed, earlier work, order of the programs
PROCESSES = [('0', 0, 'same'), ('1', 1, 'same'), ('4242', 2, 'shuffled'), ('random', 3, 'reversed'), ('99', 0, 'reversed'), ('31337', 4, 'doubled')]


class C25(Prop):
	id = 'C25'
	decodes = False
	clauses = ('same-source', 'same-order', 'same-representation', 'same-listings', 'same-traversal', 'same-outcome', 'completed')
	rule = (
		'a case is a batch of programs (edit histories with settings, sums, filters, copies, pickles, overrides, seeded random graphs, lists, texts, objects) that is run in '
		'six processes with different hash seeds, different earlier work and different orders of the programs; everything drawn, listed or represented is compared byte by '
		'byte; non-trivial: at least one program finished in all of them'
	)
	assumptions = ('the user code called by the programs is itself deterministic', 'names of nodes built from objects are their hashes, which are given')
	quick = 12
	thorough = 600
	shrink_keys = ('programs',)
	case_timeout = 300

	def generate(self, rng, index, tier):
		return dict(programs=[self.program(rng, large=i == 0 and index % 4 == 0) for i in range(20)], seed=rng.randrange(10**6))

	def program(self, rng, large=False):
		what = 'edits' if large else rng.choice(['edits'] * 7 + ['random', 'lists', 'text', 'object'])
		p = dict(what=what, scheme=rng.choice(observe.SCHEMES), stylist=rng.choice(['pensieve', 'random']), styles=rng.choice([None, 'pensieve', 'random']))
		if rng.random() < 0.6:
			t = gen.topology(rng, max_nodes=8, max_edges=12)
			p['other'] = dict(nodes=t['nodes'], edges=t['edges'])
		if what == 'random':
			p['arguments'] = dict(
				num_nodes=rng.randint(1, 12), connection_probability=rng.choice([0.1, 0.3, 0.5]), cycle=rng.random() < 0.4, strict=rng.random() < 0.5,
				seed=rng.randrange(1000), start_index=rng.choice([0, 1, 5])
			)
		elif what == 'lists':
			size = rng.randint(1, 14)
			pool = gen.name_pool(rng, 7)
			p.update(start=[rng.choice(pool) for _ in range(size)], end=[rng.choice(pool) for _ in range(size)], labels=[rng.choice([None, 'x', 'y']) for _ in range(size)])
		elif what == 'text':
			lines, level = [], 0
			for i in range(rng.randint(1, 12)):
				lines.append('  ' * level + f'line {i}')
				level = rng.randint(0, level + 1)
			p['lines'] = lines
		elif what == 'object':
			p['spec'] = make_spec(rng, 10, 20)
		else:
			if large:
				t = gen.topology(rng, max_nodes=30, max_edges=130, kinds=['random', 'multi'])
				while len(t['edges']) < 105:
					t['edges'].append([rng.choice(t['nodes']), rng.choice(t['nodes']), f'more {len(t["edges"])}'])
				return dict(p, settings={}, nodes=t['nodes'], edges=t['edges'], node={}, edge={}, ops=[], other=None, large=True)
			t = gen.topology(rng, max_nodes=14 if rng.random() < 0.3 else 8, max_edges=22, hostile=rng.choice([0, 0, 0.4, 'family+int']))
			s = rng.random()
			p.update(
				settings=observe.settings(rng, p=0.15), nodes=t['nodes'], edges=t['edges'],
				node={repr(n): attributes(rng, p=s * 0.5) for n in t['nodes']}, edge={str(i): attributes(rng, True, p=s * 0.5) for i in range(len(t['edges']))},
				ops=program(rng, rng.choice([0, 3, 10]), t['nodes'] + ['extra', 'more'], dict(bad=1, copy=2, render=1, set=2), p=0.3)
			)
		return p

	def execute(self, case, mon):
		programs = case['programs']
		if not programs:
			return
		started = []
		for hash_seed, noise, order in PROCESSES:
			indices = list(range(len(programs)))
			if order == 'reversed':
				indices.reverse()
			elif order == 'shuffled':
				random.Random(case['seed']).shuffle(indices)
			elif order == 'doubled':
				indices = indices + indices
			environment = dict(os.environ, PYTHONHASHSEED=hash_seed)
			process = subprocess.Popen([sys.executable, '-B', RUNNER], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=environment)
			job = json.dumps(dict(programs=programs, order=indices, noise=noise and noise + case['seed']))
			started.append((process, job, (hash_seed, noise, order)))
		results = []
		for process, job, how in started:
			try:
				out, err = process.communicate(job.encode(), timeout=self.case_timeout - 60)
			except subprocess.TimeoutExpired:
				for p, _, _ in started:
					p.kill()
				raise Violation('completed', f'the programs did not finish in {self.case_timeout - 60} s')
			mon.check('completed', process.returncode == 0, lambda: f'process {how} ended with {process.returncode}: {err.decode()[-600:]}')
			results.append((how, json.loads(out)))
			mon.event('process', *how)
		first_how, first = results[0]
		for i, p in enumerate(programs):
			expected = first[str(i)]
			mon.event('program', p['what'], None if expected is None else len(expected))
			for how, r in results[1:]:
				self.compare(mon, p, expected, r[str(i)], first_how, how)
			mon.state(expected and expected.get('built source'))

	def compare(self, mon, p, x, y, x_how, y_how):
		what = f'a program of kind {p["what"]} in processes {x_how} and {y_how} (hash seed, earlier work, order of programs)'
		mon.equal('same-outcome', sorted(y) if y is not None else None, sorted(x) if x is not None else None, what)
		for key, v in (x or {}).items():
			clause = (
				'same-source' if 'source' in key or 'drawn ' in key or key == 'overridden' else 'same-representation' if 'representation' in key else 'same-traversal' if 'traversal' in key
				else 'same-order' if key.endswith(('nodes', 'edges', 'edges_dict')) else 'same-outcome' if key == 'failed' else 'same-listings'
			)
			mon.clauses[clause] += 1
			if y[key] != v:
				raise Violation(clause, f'{key} differs: {self.part(v, y[key])}; {what}')

	def part(self, v, w):
		if isinstance(v, str) and isinstance(w, str):
			for i, (a, b) in enumerate(zip(v.split(chr(10)), w.split(chr(10)))):
				if a != b:
					return f'line {i}: {a!r:.300} / {b!r:.300}'
		return f'{v!r:.400} / {w!r:.400}'

	def fingerprint(self, case, mon):
		return super().fingerprint(case, mon) if mon.clauses['same-source'] else None


PROP = C25()
