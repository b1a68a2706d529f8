"""
plant.py DEFS [ID...]: makes /verif/seeded/<id>/ from definitions, after confirming each in a scratch copy of /repo:
the patch applies, removes only lines of the original commit, the tests pass, the demonstration fails with it and passes without.
plant.py --check [ID...]: runs the check of each planted bug's property (quick tier) against a scratch copy with the patch.
plant.py --all [ID...]: runs all checks against each. Both record what was caught in tools/catches.json.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import concurrent.futures

VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
PYTHON = '/opt/venv/bin/python'
BASE = '50c554a'
PREAMBLE = '''import os
import sys
import warnings
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
warnings.simplefilter('ignore')
from abstract import Graph, Node, Edge, get_ancestors, get_descendants
from abstract.styling.NodeStyle import NodeStyle
from abstract.styling.EdgeStyle import EdgeStyle

'''
DEMO = '''#!/bin/sh
# run with cwd = the repository; fails if the property is broken
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''


def sh(command, cwd=None, env=None, timeout=300):
	try:
		return subprocess.run(command, cwd=cwd, env=env, shell=isinstance(command, str), capture_output=True, text=True, timeout=timeout)
	except subprocess.TimeoutExpired:
		return subprocess.CompletedProcess(command, 124, '', 'timeout')


def scratch():
	path = tempfile.mkdtemp(prefix='plant-')
	shutil.copytree('/repo', os.path.join(path, 'repo'), symlinks=True)
	return path, os.path.join(path, 'repo')


def original_lines(repo, diff):
	"""the lines of the original commit among those the patch removes"""
	original = removed = 0
	for block in re.split(r'(?m)^diff --git ', diff)[1:]:
		name = re.search(r'(?m)^--- a/(.*)$', block).group(1)
		blame = sh(['git', 'blame', '-s', '-l', 'HEAD', '--', name], cwd=repo).stdout.splitlines()
		number = 0
		for line in block.splitlines():
			m = re.match(r'@@ -(\d+)', line)
			if m:
				number = int(m.group(1))
			elif line.startswith('-') and not line.startswith('---'):
				removed += 1
				original += blame[number - 1].lstrip('^').startswith(BASE)
				number += 1
			elif line.startswith(' '):
				number += 1
	return original, removed


def tests(repo):
	r = sh(f'{PYTHON} -B -m pytest -q -p no:cacheprovider', cwd=repo, env=dict(os.environ, PYTHONHASHSEED='0', PYTHONPATH=repo))
	return '10 passed' in r.stdout, r.stdout[-300:]


def plant(d):
	path, repo = scratch()
	try:
		target = os.path.join(SEEDED, d['id'])
		for file, old, new in d['edits']:
			p = os.path.join(repo, file)
			with open(p, newline='') as f:
				s = f.read()
			if s.count(old) != 1:
				return d['id'], f'{s.count(old)} matches in {file}: {old[:60]!r}'
			with open(p, 'w', newline='') as f:
				f.write(s.replace(old, new))
		diff = sh(['git', 'diff'], cwd=repo).stdout
		original, removed = original_lines(repo, diff)
		if original == 0:
			return d['id'], f'no original line changed ({removed} removed)'
		ok, output = tests(repo)
		if not ok:
			return d['id'], 'tests: ' + output
		os.makedirs(target, exist_ok=True)
		with open(os.path.join(target, 'patch.diff'), 'w') as f:
			f.write(diff)
		with open(os.path.join(target, 'demo.sh'), 'w') as f:
			f.write(DEMO)
		os.chmod(os.path.join(target, 'demo.sh'), 0o755)
		with open(os.path.join(target, 'demo.py'), 'w') as f:
			f.write(PREAMBLE + d['demo'].strip('\n') + '\n')
		with open(os.path.join(target, 'meta.json'), 'w') as f:
			json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']), f, indent=1)
			f.write('\n')
		with_bug = sh(['sh', os.path.join(target, 'demo.sh')], cwd=repo)
		sh(['git', 'checkout', '--', '.'], cwd=repo)
		without = sh(['sh', os.path.join(target, 'demo.sh')], cwd=repo)
		if with_bug.returncode == 0 or without.returncode != 0:
			shutil.rmtree(target)
			return d['id'], f'demo: with {with_bug.returncode}, without {without.returncode} {without.stderr[-400:]}'
		return d['id'], f'ok ({original}/{removed} original) {with_bug.stderr.strip().splitlines()[-1][:150]}'
	finally:
		shutil.rmtree(path)


def check(id, tier='quick', properties=None):
	with open(os.path.join(SEEDED, id, 'meta.json')) as f:
		prop = json.load(f)['property']
	path, repo = scratch()
	try:
		r = sh(['git', 'apply', os.path.join(SEEDED, id, 'patch.diff')], cwd=repo)
		if r.returncode:
			return id, prop, 'patch does not apply: ' + r.stderr
		demo = sh(['sh', os.path.join(SEEDED, id, 'demo.sh')], cwd=repo)
		result, caught = [], {}
		for p in properties or [prop]:
			r = sh([PYTHON, '-B', os.path.join(VERIF, 'check.py'), p, '--tier', tier], env=dict(os.environ, RV_REPO=repo), timeout=1200)
			if r.returncode == 1 and f'VIOLATION property={p} ' in r.stdout:
				caught[p] = True
				result.append(f'{p} caught: ' + ' '.join(r.stdout.split('case:')[0].split())[:160])
			else:
				caught[p] = False
			if not caught[p] and (r.returncode != 0 or not properties):
				result.append(f'{p} MISSED rc={r.returncode} ' + (r.stdout + r.stderr)[-160:].replace('\n', ' '))
		record(id, caught)
		return id, prop, ('' if demo.returncode else 'DEMO PASSES ') + ' | '.join(result)
	finally:
		shutil.rmtree(path)


LOCK = threading.Lock()
CATCHES = os.path.join(VERIF, 'tools', 'catches.json')


def record(id, caught):
	with LOCK:
		known = {}
		if os.path.exists(CATCHES):
			with open(CATCHES) as f:
				known = json.load(f)
		known.setdefault(id, {}).update(caught)
		with open(CATCHES, 'w') as f:
			json.dump({k: dict(sorted(known[k].items())) for k in sorted(known) if os.path.isdir(os.path.join(SEEDED, k))}, f, indent=0)
			f.write('\n')


def main():
	if sys.argv[1] == '--check':
		ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
		with concurrent.futures.ThreadPoolExecutor(2) as pool:
			for r in pool.map(check, ids):
				print(*r, flush=True)
	elif sys.argv[1] == '--all':
		ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
		with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('JOBS', 4))) as pool:
			for r in pool.map(lambda id: check(id, properties=[f'C{i:02}' for i in range(1, 27)]), ids):
				print(*r, flush=True)
	else:
		scope = {}
		with open(sys.argv[1]) as f:
			exec(f.read(), scope)
		defs = [d for d in scope['DEFS'] if not sys.argv[2:] or d['id'] in sys.argv[2:]]
		with concurrent.futures.ThreadPoolExecutor(6) as pool:
			for r in pool.map(plant, defs):
				print(*r, flush=True)


if __name__ == '__main__':
	main()
