"""
mutate_guarded.py OUT ROWS... [--jobs N] [--sample N] [--seed N]: the small changes of mutate.py that a check reported (ROWS, its
outputs), made again so that they count only under a rare condition on the data at hand (a large graph, a long text, a value that counts
as false, the third use of an object ...). What the same check then misses in its quick tier, and the others in a few cases,
is listed for review. A development tool: no check uses it.
"""
import argparse
import ast
import concurrent.futures
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.realpath(__file__)))
import mutate

TRIGGER = '''
import sys as _sys
_seen = {}
def _graphs(values):
	for v in values:
		d = getattr(v, '__dict__', None)
		if isinstance(d, dict):
			if '_nodes_dict' in d or '_nodes' in d:
				yield v
			elif d.get('_graph') is not None:
				yield d['_graph']
def _nodes(g):
	d = g.__dict__
	x = d.get('_nodes_dict', d.get('_nodes'))
	return list(x.values()) if isinstance(x, dict) else []
def _edges(values):
	for v in values:
		if type(v).__name__ == 'Edge':
			yield v
def _texts(values):
	for v in values:
		if isinstance(v, str):
			yield v
		d = getattr(v, '__dict__', None)
		if isinstance(d, dict):
			for k in ('_name', '_label', '_value', '_id', '_raw_id', '_tooltip'):
				if isinstance(d.get(k), str):
					yield d[k]
def trigger(kind, site, local):
	values = list(local.values())
	try:
		if kind == 'big':
			return any(len(_nodes(g)) >= 12 for g in _graphs(values))
		if kind == 'huge':
			return any(len(_nodes(g)) >= 25 for g in _graphs(values))
		if kind == 'long':
			return any(len(t) >= 12 for t in _texts(values))
		if kind == 'digits':
			return any(t.isdigit() and len(t) > 1 for t in _texts(values))
		if kind == 'capital':
			return any(t != t.lower() for t in _texts(values))
		if kind == 'falsy':
			return any(v is not None and not isinstance(v, bool) and type(v).__module__ == 'builtins' and not v for v in values + [getattr(v, '_value', None) for v in values])
		if kind == 'number':
			return any(isinstance(v, (int, float)) and not isinstance(v, bool) and v >= 5 for v in values)
		if kind == 'loop':
			return any(e.__dict__.get('_start') is e.__dict__.get('_end') for e in _edges(values)) or any(any(k[0] == k[1] for k in v.__dict__.get('_outward_edges_dict', v.__dict__.get('_outward_edges', {}))) for v in values if type(v).__name__ == 'Node')
		if kind == 'parallel':
			for v in values:
				if type(v).__name__ == 'Edge':
					v = v.__dict__['_start']
				if type(v).__name__ == 'Node':
					keys = [k[:2] for k in v.__dict__.get('_outward_edges_dict', v.__dict__.get('_outward_edges', {}))]
					if len(keys) > len(set(keys)):
						return True
			return False
		if kind == 'third':
			me = local.get('self', local.get('graph', local.get('node', local.get('edge'))))
			if me is None:
				return False
			n = _seen[site, id(me)] = _seen.get((site, id(me)), 0) + 1
			return n >= 3 and n % 3 == 0
		if kind == 'loose':
			return any(g.__dict__.get('_is_strict') is False or g.__dict__.get('_strict') is False for g in _graphs(values))
		if kind == 'gap':
			return any(max([getattr(x, '_index', 0) or 0 for x in _nodes(g)], default=0) >= len(_nodes(g)) for g in _graphs(values))
		if kind == 'hub':
			return any(type(v).__name__ == 'Node' and sum(len(x) for k, x in v.__dict__.items() if 'ward_edges' in k and hasattr(x, '__len__')) >= 5 for v in values)
	except Exception:
		return False
	raise SystemError(kind)
'''
KINDS = ['big', 'huge', 'long', 'digits', 'capital', 'falsy', 'number', 'loop', 'parallel', 'third', 'loose', 'gap', 'hub']


def call(kind, site):
	return ast.parse(f'__import__("abstract._rv_trigger", fromlist=["trigger"]).trigger({kind!r}, {site!r}, locals())', mode='eval').body


def guarded(path, kind, rows, site):
	"""yields the changes described in rows, each under the condition"""
	with open(path) as f:
		tree = ast.parse(f.read())
	parents = {child: p for p in ast.walk(tree) for child in ast.iter_child_nodes(p)}

	def inside(node):
		while node in parents:
			node = parents[node]
			if isinstance(node, ast.FunctionDef):
				return True
		return False

	for p in list(ast.walk(tree)):
		for field, value in ast.iter_fields(p):
			items = value if isinstance(value, list) else [value]
			for i, node in enumerate(items):
				if not isinstance(node, (ast.expr, ast.stmt)) or mutate.in_annotation(node, parents) or mutate.in_raise(node, parents) or isinstance(node, (ast.Import, ast.ImportFrom, ast.FunctionDef)) or not inside(node) or isinstance(p, ast.arguments) or field == 'decorator_list':
					continue
				for what, new in mutate.variants(node, parents):
					key = what, ast.unparse(node)[:90], ast.unparse(new)[:90]
					if key not in rows:
						continue
					k = kind()
					if isinstance(node, ast.expr):
						if isinstance(getattr(node, 'ctx', None), ast.Store) or isinstance(parents.get(node), (ast.JoinedStr, ast.FormattedValue)) and isinstance(node, ast.Constant):
							continue
						wrapped = ast.IfExp(call(k, site()), new, copy.deepcopy(node))
					else:
						wrapped = ast.If(call(k, site()), [new], [copy.deepcopy(node)])
					if isinstance(value, list):
						value[i] = wrapped
					else:
						setattr(p, field, wrapped)
					try:
						text = ast.unparse(ast.fix_missing_locations(tree))
						compile(text, path, 'exec')
					except Exception:
						text = None
					if isinstance(value, list):
						value[i] = node
					else:
						setattr(p, field, node)
					if text is not None:
						yield dict(line=node.lineno, what=what, old=key[1], new=key[2], kind=k, text=text, check=rows[key])


def run(m):
	path = tempfile.mkdtemp(prefix='mutant-', dir='/dev/shm')
	try:
		repo = os.path.join(path, 'repo')
		shutil.copytree('/repo', repo, symlinks=True, ignore=shutil.ignore_patterns('.git', 'pictures'))
		with open(os.path.join(repo, m['file']), 'w') as f:
			f.write(m['text'])
		with open(os.path.join(repo, 'abstract', '_rv_trigger.py'), 'w') as f:
			f.write(TRIGGER)
		env = dict(os.environ, PYTHONHASHSEED='0', PYTHONPATH=repo)
		try:
			r = subprocess.run([mutate.PYTHON, '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'], cwd=repo, env=env, capture_output=True, text=True, timeout=60)
		except subprocess.TimeoutExpired:
			return 'tests'
		if '10 passed' not in r.stdout:
			return 'tests'
		driver = os.path.join(mutate.VERIF, 'tools', 'mutant_run.py')
		for cases, checks in ((2500, [m['check']]), (60, mutate.CHECKS)):
			try:
				r = subprocess.run([mutate.PYTHON, '-B', driver, str(cases)] + checks, cwd=path, env=dict(os.environ, PYTHONHASHSEED='0', RV_REPO=repo), capture_output=True, text=True, timeout=900)
			except subprocess.TimeoutExpired:
				return 'timeout'
			last = (r.stdout.strip().splitlines() or [''])[-1]
			if last.startswith('CAUGHT'):
				return last[:200]
			if not last.startswith('SURVIVED'):
				return 'ERROR ' + (r.stdout + r.stderr)[-200:]
		return last[:200]
	finally:
		shutil.rmtree(path, ignore_errors=True)


def main():
	parser = argparse.ArgumentParser()
	parser.add_argument('out')
	parser.add_argument('rows', nargs='+')
	parser.add_argument('--jobs', type=int, default=4)
	parser.add_argument('--sample', type=int, default=300)
	parser.add_argument('--seed', type=int, default=1)
	args = parser.parse_args()
	rng = random.Random(args.seed)
	rows = {}
	for name in args.rows:
		with open(name) as f:
			for x in map(json.loads, f):
				if x['result'].startswith('CAUGHT C'):
					rows.setdefault(x['file'], {})[x['what'], x['old'], x['new']] = x['result'].split()[1]
	count = iter(range(10 ** 9))
	todo = [dict(m, file=file) for file in sorted(rows) for m in guarded(os.path.join('/repo', file), lambda: rng.choice(KINDS), rows[file], lambda: next(count))]
	print(len(todo), 'changes', flush=True)
	todo = rng.sample(todo, min(args.sample, len(todo)))
	with open(args.out, 'w') as out, concurrent.futures.ThreadPoolExecutor(args.jobs) as pool:
		futures = {pool.submit(run, m): m for m in todo}
		for future in concurrent.futures.as_completed(futures):
			m = futures[future]
			out.write(json.dumps({**{k: m[k] for k in ('file', 'line', 'what', 'old', 'new', 'kind', 'check')}, 'result': future.result()}) + '\n')
			out.flush()


if __name__ == '__main__':
	main()
