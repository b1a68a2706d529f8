"""
mutate.py OUT [--files F...] [--jobs N] [--cases N] [--only K...]: systematic small changes to the package, each in a scratch
directory; those that pass the repository's tests are shown to the checks (few cases each), and the ones no check reports are
listed for review. A development tool: no check uses it.
"""
import argparse
import ast
import concurrent.futures
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
PYTHON = '/opt/venv/bin/python'
CHECKS = [f'C{i:02}' for i in range(1, 27)]

COMPARE = {
	ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
	ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]
}
BINARY = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Mod: [ast.Mult], ast.FloorDiv: [ast.Mult]}


def docstring(node, parents):
	p = parents.get(node)
	return isinstance(p, ast.Expr) and isinstance(node, ast.Constant) and isinstance(node.value, str)


def in_annotation(node, parents):
	while node in parents:
		p = parents[node]
		if isinstance(p, ast.arg) and p.annotation is node or isinstance(p, ast.FunctionDef) and p.returns is node or isinstance(p, ast.AnnAssign) and p.annotation is node:
			return True
		node = p
	return False


def in_raise(node, parents):
	while node in parents:
		if isinstance(parents[node], ast.Raise):
			return True
		node = parents[node]
	return False


def variants(node, parents):
	"""yields (description, replacement) for an expression or statement"""
	if isinstance(node, ast.Compare) and len(node.ops) == 1:
		for t in COMPARE.get(type(node.ops[0]), []):
			n = copy.deepcopy(node)
			n.ops = [t()]
			yield 'compare', n
	if isinstance(node, ast.BoolOp):
		n = copy.deepcopy(node)
		n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
		yield 'bool', n
		for i in range(len(node.values)):
			rest = [copy.deepcopy(v) for j, v in enumerate(node.values) if j != i]
			yield f'drop operand {i}', rest[0] if len(rest) == 1 else ast.BoolOp(op=copy.deepcopy(node.op), values=rest)
	if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
		yield 'not', copy.deepcopy(node.operand)
	if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
		yield 'minus', copy.deepcopy(node.operand)
	if isinstance(node, ast.BinOp):
		for t in BINARY.get(type(node.op), []):
			n = copy.deepcopy(node)
			n.op = t()
			yield 'arithmetic', n
		yield 'left only', copy.deepcopy(node.left)
		yield 'right only', copy.deepcopy(node.right)
	if isinstance(node, ast.IfExp):
		yield 'then', copy.deepcopy(node.body)
		yield 'else', copy.deepcopy(node.orelse)
	if isinstance(node, ast.Constant) and not docstring(node, parents):
		v = node.value
		if isinstance(v, bool):
			yield 'flip', ast.Constant(not v)
		elif isinstance(v, (int, float)):
			yield 'plus one', ast.Constant(v + 1)
			if v:
				yield 'zero', ast.Constant(0)
		elif isinstance(v, str) and not isinstance(parents.get(node), ast.JoinedStr):
			yield 'text', ast.Constant(v + 'X')
			if v:
				yield 'empty', ast.Constant('')
		elif isinstance(v, str):
			if v.strip():
				yield 'format text', ast.Constant('')
	if isinstance(node, ast.Call):
		for i, k in enumerate(node.keywords):
			if k.arg is not None:
				n = copy.deepcopy(node)
				del n.keywords[i]
				yield f'drop keyword {k.arg}', n
		if isinstance(node.func, ast.Attribute) and node.func.attr in ('copy', 'lower', 'upper', 'strip', 'lstrip', 'rstrip') and not node.args:
			yield f'drop .{node.func.attr}()', copy.deepcopy(node.func.value)
		if isinstance(node.func, ast.Name) and node.func.id in ('deepcopy', 'list', 'set', 'str', 'reversed', 'sorted', 'round', 'dict', 'escape_text', 'float', 'abs') and len(node.args) >= 1:
			yield f'drop {node.func.id}()', copy.deepcopy(node.args[0])
		if isinstance(node.func, ast.Name) and node.func.id in ('min', 'max'):
			n = copy.deepcopy(node)
			n.func.id = 'max' if node.func.id == 'min' else 'min'
			yield 'min/max', n
	if isinstance(node, ast.comprehension):
		for i in range(len(node.ifs)):
			n = copy.deepcopy(node)
			del n.ifs[i]
			yield 'drop filter', n
		n = copy.deepcopy(node)
		n.iter = ast.Subscript(ast.Call(ast.Name('list', ast.Load()), [n.iter], []), ast.Slice(ast.Constant(1)), ast.Load())
		yield 'skip first', n
	if isinstance(node, ast.For):
		for what, s in (('skip first', ast.Slice(ast.Constant(1))), ('skip last', ast.Slice(None, ast.Constant(-1))), ('reverse', ast.Slice(None, None, ast.Constant(-1)))):
			n = copy.deepcopy(node)
			n.iter = ast.Subscript(ast.Call(ast.Name('list', ast.Load()), [n.iter], []), s, ast.Load())
			yield what, n
	if isinstance(node, (ast.If, ast.While)):
		n = copy.deepcopy(node)
		n.test = ast.Constant(False)
		yield 'never', n
		if isinstance(node, ast.If):
			n = copy.deepcopy(node)
			n.test = ast.Constant(True)
			yield 'always', n
	if isinstance(node, (ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Break, ast.Continue)) or isinstance(node, ast.Expr) and not isinstance(node.value, ast.Constant):
		yield 'delete statement', ast.Pass()
	if isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
		yield 'return None', ast.Return(ast.Constant(None))
	if isinstance(node, ast.Dict):
		for i in range(len(node.keys)):
			n = copy.deepcopy(node)
			del n.keys[i], n.values[i]
			yield f'drop entry {i}', n
	if isinstance(node, (ast.List, ast.Tuple)) and isinstance(node.ctx, ast.Load) and len(node.elts) > 1:
		for i in range(len(node.elts)):
			n = copy.deepcopy(node)
			del n.elts[i]
			yield f'drop element {i}', n


def mutants(path):
	with open(path) as f:
		source = f.read()
	tree = ast.parse(source)
	parents = {child: p for p in ast.walk(tree) for child in ast.iter_child_nodes(p)}
	for p in list(ast.walk(tree)):
		for field, value in ast.iter_fields(p):
			items = value if isinstance(value, list) else [value]
			for i, node in enumerate(items):
				if not isinstance(node, ast.AST) or in_annotation(node, parents) or in_raise(node, parents):
					continue
				if isinstance(node, (ast.Import, ast.ImportFrom)):
					continue
				for what, new in variants(node, parents):
					if isinstance(value, list):
						value[i] = new
					else:
						setattr(p, field, new)
					try:
						text = ast.unparse(ast.fix_missing_locations(tree))
						compile(text, path, 'exec')
					except Exception:
						text = None
					if isinstance(value, list):
						value[i] = node
					else:
						setattr(p, field, node)
					if text is not None:
						yield dict(line=getattr(node, 'lineno', getattr(getattr(node, 'target', None), 'lineno', 0)), what=what, old=ast.unparse(node)[:90], new=ast.unparse(new)[:90], text=text)


def run(m, cases, checks):
	base = '/dev/shm' if os.path.isdir('/dev/shm') else None
	path = tempfile.mkdtemp(prefix='mutant-', dir=base)
	try:
		repo = os.path.join(path, 'repo')
		shutil.copytree('/repo', repo, symlinks=True, ignore=shutil.ignore_patterns('.git', 'pictures'))
		with open(os.path.join(repo, m['file']), 'w') as f:
			f.write(m['text'])
		env = dict(os.environ, PYTHONHASHSEED='0', PYTHONPATH=repo)
		try:
			r = subprocess.run([PYTHON, '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'], cwd=repo, env=env, capture_output=True, text=True, timeout=60)
		except subprocess.TimeoutExpired:
			return 'tests'
		if '10 passed' not in r.stdout:
			return 'tests'
		driver = os.path.join(VERIF, 'tools', 'mutant_run.py')
		try:
			r = subprocess.run([PYTHON, '-B', driver, str(cases)] + checks, cwd=path, env=dict(os.environ, PYTHONHASHSEED='0', RV_REPO=repo), capture_output=True, text=True, timeout=900)
		except subprocess.TimeoutExpired:
			return 'timeout'
		last = (r.stdout.strip().splitlines() or [''])[-1]
		if last.startswith(('CAUGHT', 'SURVIVED')):
			return last[:200]
		return 'ERROR ' + (r.stdout + r.stderr)[-200:]
	finally:
		shutil.rmtree(path, ignore_errors=True)


def main():
	parser = argparse.ArgumentParser()
	parser.add_argument('out')
	parser.add_argument('--files', nargs='*')
	parser.add_argument('--jobs', type=int, default=8)
	parser.add_argument('--cases', type=int, default=60)
	parser.add_argument('--checks', nargs='*', default=CHECKS)
	parser.add_argument('--again', help='only the survivors of this earlier output')
	args = parser.parse_args()
	files = args.files or [
		os.path.relpath(os.path.join(root, f), '/repo') for root, _, names in os.walk('/repo/abstract') if 'test' not in root for f in sorted(names) if f.endswith('.py') and f != '__init__.py'
	]
	wanted = None
	if args.again:
		with open(args.again) as f:
			wanted = {(x['file'], x['line'], x['what'], x['old'], x['new']) for x in map(json.loads, f) if not x['result'].startswith(('CAUGHT', 'tests'))}
	todo = [dict(m, file=file) for file in files for m in mutants(os.path.join('/repo', file))]
	if wanted is not None:
		todo = [m for m in todo if (m['file'], m['line'], m['what'], m['old'], m['new']) in wanted]
	print(len(todo), 'mutants', flush=True)
	with open(args.out, 'w') as out, concurrent.futures.ThreadPoolExecutor(args.jobs) as pool:
		futures = {pool.submit(run, m, args.cases, args.checks): m for m in todo}
		for future in concurrent.futures.as_completed(futures):
			m = futures[future]
			row = dict(file=m['file'], line=m['line'], what=m['what'], old=m['old'], new=m['new'], result=future.result())
			out.write(json.dumps(row) + '\n')
			out.flush()


if __name__ == '__main__':
	main()
