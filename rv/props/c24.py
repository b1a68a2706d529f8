import contextlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
import types
import xml.etree.ElementTree as ElementTree
from collections import Counter

from ..core import Prop, Violation
from .. import dot, gen, observe
from ..driver import ANY, Driver, attributes, program
from .c18 import TEXTS, clean, readable

FORMATS = ['svg', 'svg', 'svg', 'png', 'png', 'pdf', 'dot', 'dot', 'gif', 'jpg', 'json', 'plain', 'dot']
MAGIC = dict(png=b'\x89PNG\r\n\x1a\n', pdf=b'%PDF-', gif=b'GIF8', jpg=b'\xff\xd8\xff', plain=b'graph ')
FILES = ['pic', 'my pic', 'pic.v1', 'a.b.c', 'Bild_é', '日本', 'PIC', 'x' * 60, "it's", 'pic.svg', 'pic.pdf', 'a&b', 'pic(1)', '#1', 'graph.gv', '.hidden', 'pic.', '100%']
FOLDERS = ['', 'sub', 'my folder', 'v1.2', 'a.b/c.d', 'é', 'deep/er/still', 'x.svg']


@contextlib.contextmanager
def silence():
	"""what Graphviz says of formats it does not know"""
	sys.stderr.flush()
	kept, null = os.dup(2), os.open(os.devnull, os.O_WRONLY)
	os.dup2(null, 2)
	try:
		yield
	finally:
		sys.stderr.flush()
		os.dup2(kept, 2)
		os.close(kept)
		os.close(null)


class Watch:
	"""an audit hook: records what the process writes, creates, removes and starts while it is armed"""
	def __init__(self):
		self.armed = False
		self.records = []
		self.installed = False

	def install(self):
		if not self.installed:
			sys.addaudithook(self.hook)
			self.installed = True

	def hook(self, event, args):
		if not self.armed:
			return
		if event == 'open':
			path, mode, flags = args
			writes = (isinstance(mode, str) and any(c in mode for c in 'wax+')) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
			if writes and not isinstance(path, int):
				self.records.append(('write', os.path.abspath(os.fsdecode(path))))
		elif event in ('os.mkdir', 'os.remove', 'os.rmdir', 'shutil.rmtree', 'os.truncate', 'os.chmod'):
			self.records.append((event, os.path.abspath(os.fsdecode(args[0]))))
		elif event in ('os.rename', 'os.link', 'os.symlink', 'shutil.copyfile', 'shutil.move'):
			self.records.append((event, os.path.abspath(os.fsdecode(args[0]))))
			self.records.append((event, os.path.abspath(os.fsdecode(args[1]))))
		elif event == 'subprocess.Popen':
			self.records.append(('start', os.path.basename(os.fsdecode(args[0])), args[1]))
		elif event in ('os.system', 'os.exec', 'os.posix_spawn', 'os.startfile', 'webbrowser.open'):
			self.records.append(('start', event, args[0]))

	def __enter__(self):
		self.install()
		self.records = []
		self.armed = True
		return self

	def __exit__(self, *_):
		self.armed = False


WATCH = Watch()


def listing(folder):
	"""every file below a folder with its content"""
	result = {}
	for path, _, files in os.walk(folder):
		for f in files:
			p = os.path.join(path, f)
			with open(p, 'rb') as handle:
				result[os.path.relpath(p, folder)] = handle.read()
	return result


def stub_ipython():
	"""IPython is not installed; get_html only wraps the text in this class"""
	class HTML:
		def __init__(self, data=None):
			self.data = data
	for name in ('IPython', 'IPython.core', 'IPython.core.display', 'IPython.display'):
		module = sys.modules.setdefault(name, types.ModuleType(name))
		module.HTML = HTML


class C24(Prop):
	id = 'C24'
	clauses = (
		'exact-path', 'format', 'nothing-else', 'outside', 'viewer', 'returned', 'svg-nodes', 'svg-edges', 'svg-text', 'html', 'drawn-nodes', 'drawn-edges',
		'size', 'asked', 'same-picture', 'overwritten', 'refused'
	)
	rule = (
		'a case is a graph (hostile texts, both stylists, strict or not) that is saved below a scratch folder under an odd file and folder name in one of ten formats, edited, '
		'saved again over it, and drawn as SVG text and as HTML; an audit hook records everything the process writes and starts, the files are read back and their content '
		'is compared with the model; non-trivial: at least one node'
	)
	assumptions = (
		'Graphviz 2.43 as installed; the graphviz package also leaves the source next to the picture, which is not forbidden',
		'IPython is replaced by a stand-in with its HTML class',
	)
	quick = 1000
	thorough = 12000
	shrink_keys = ('ops', 'edges', 'nodes')

	def generate(self, rng, index, tier):
		t = gen.topology(rng, **gen.sizes(rng, 7, 12, big=0.03), hostile=rng.choice([0, 0, 0.5, 'family+plain']))
		names = [n for n in t['nodes'] if readable(n)]
		edges = [e for e in t['edges'] if e[0] in names and e[1] in names]
		settings = observe.settings(rng, p=0.15, converters=False)
		settings.pop('extra', None)
		if rng.random() < 0.5:
			settings['strict'] = rng.random() < 0.6
		ask = {}
		for key in ('height', 'width'):
			if rng.random() < 0.35:
				ask[key] = rng.choice([2, 3, 4.5, 6, 8])
		if rng.random() < 0.3:
			ask['direction'] = rng.choice(['LR', 'TB', 'BT', 'RL'])
		if rng.random() < 0.2:
			ask['pad'] = rng.choice([0, 0.5, 1])
		if rng.random() < 0.2:
			ask['dpi'] = rng.choice([72, 96, 300])
		return dict(
			kind=t['kind'], nodes=names, edges=edges, settings=settings,
			node={repr(n): clean(attributes(rng, p=0.4, texts=TEXTS)) for n in names}, edge={str(i): clean(attributes(rng, True, p=0.4, texts=TEXTS)) for i in range(len(edges))},
			format=rng.choice(FORMATS), file=rng.choice(FILES), folder=rng.choice(FOLDERS), how=rng.choice(['absolute', 'relative', 'relative', 'dotted']), ask=ask,
			again=rng.random() < 0.4, refuse=rng.choice([None, None, None, 'format', 'place', 'case']), shown=rng.choice(['get_svg', '_repr_html_', 'get_html', 'get_svg asked', 'get_html asked']),
			ops=[
				op for op in program(rng, rng.choice([0, 4]), names + ['extra'], dict(bad=0, Node=2, move=1), p=0.2, styles=False)
				if all(readable(v) for a in op if isinstance(a, dict) for v in a.values() if isinstance(v, str))
			]
		)

	def execute(self, case, mon):
		d = Driver(mon, settings=observe.make_settings(case['settings']))
		d.overwrite = bool(case['settings'].get('style_overwrite_allowed'))
		for n in case['nodes']:
			d.op_add(n, case['node'].get(repr(n)))
		for i, (s, e, id) in enumerate(case['edges']):
			if s in d.m.nodes and e in d.m.nodes:
				d.op_conn(s, e, id, case['edge'].get(str(i)), how=i)
		strict = bool(case['settings'].get('strict', False))
		scratch = tempfile.mkdtemp(prefix='rv-c24-')
		here = os.getcwd()
		try:
			base = os.path.join(scratch, 'base')
			os.mkdir(base)
			with open(os.path.join(scratch, 'bystander'), 'w') as f:
				f.write('untouched')
			os.chdir(base)
			path = self.save(d, case, mon, scratch, strict)
			for op in case['ops']:
				d.run(op)
			if case['again']:
				self.save(d, case, mon, scratch, strict, again=True)
			self.show(d, case, mon, scratch, strict)
			if case['refuse']:
				self.refuse(d, case, mon, scratch, path)
		finally:
			os.chdir(here)
			shutil.rmtree(scratch, ignore_errors=True)
		mon.state((d.m.shape(), case['format'], case['file'], case['folder'], strict))

	def save(self, d, case, mon, scratch, strict, again=False):
		name = f'{case["file"]}.{case["format"]}'
		relative = os.path.join(case['folder'], name)
		exact = os.path.join(scratch, 'base', relative)
		path = dict(absolute=exact, relative=relative, dotted=os.path.join('.', case['folder'], '..' if case['folder'] == 'sub' else '.', name))[case['how']]
		if case['how'] == 'dotted' and case['folder'] == 'sub':
			os.makedirs(os.path.join(scratch, 'base', 'sub'), exist_ok=True)
			exact = os.path.join(scratch, 'base', name)
		folder = os.path.dirname(exact)
		before = listing(scratch)
		with WATCH as watch:
			source, _ = mon.call('render', d.g.render, path, view=False, clause='exact-path', **case['ask'])
		records = list(watch.records)
		mon.event('saved', case['format'], len(records))
		for record in records:
			if record[0] == 'start':
				mon.check('viewer', record[1] == 'dot', lambda: f'{record!r} was started')
			elif record[1] not in ('/dev/null', os.devnull):
				inside = os.path.realpath(record[1]).startswith(os.path.realpath(folder) + os.sep) or (record[0] == 'os.mkdir' and os.path.realpath(folder).startswith(os.path.realpath(record[1])))
				mon.check('outside', inside, lambda: f'{record!r} is outside of the directory of {exact!r}')
		if not any(r[0] == 'start' for r in records):
			mon.notes['no process was started'] += 1
		mon.clauses['viewer'] += 1
		mon.check('exact-path', os.path.isfile(exact), lambda: f'render({str(path)!r}) did not write {exact!r}, there are {sorted(listing(scratch))!r}')
		after = listing(scratch)
		changed = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
		directory = os.path.relpath(folder, scratch)
		for k in changed:
			mon.check('nothing-else', os.path.dirname(k) == directory, lambda: f'render({str(path)!r}) changed {k!r}')
			mon.check('nothing-else', k in after, lambda: f'render({str(path)!r}) removed {k!r}')
		pictures = [k for k in changed if k != os.path.relpath(exact, scratch) and k.rsplit('.', 1)[-1] in MAGIC and after[k].startswith(MAGIC[k.rsplit('.', 1)[-1]])]
		mon.equal('nothing-else', pictures, [], 'further pictures')
		if again:
			mon.check('overwritten', True)
		data = after[os.path.relpath(exact, scratch)]
		self.judge_file(d, case, mon, data, source, strict)
		# the source that was drawn, when it was left next to the picture
		left = after.get(os.path.relpath(exact, scratch).rsplit('.', 1)[0])
		if left is not None:
			try:
				self.judge_size(case['ask'], mon, dot.parse(left.decode('utf-8')))
			except dot.DotError as e:
				raise Violation('drawn-nodes', f'the source that was drawn cannot be read: {e}')
		return path

	def judge_size(self, asked, mon, drawing):
		ask = [asked[k] for k in ('width', 'height') if k in asked]
		numbers = [float(x) for x in re.findall(r'[0-9.]+', str(drawing.attributes.get('size', '')))]
		mon.equal('size', numbers, [float(x) for x in ask], 'size (width, height) in the source that was drawn')

	def judge_file(self, d, case, mon, data, source, strict):
		kind, m = case['format'], d.m
		if kind in MAGIC:
			mon.check('format', data.startswith(MAGIC[kind]), lambda: f'a {kind} file starts with {data[:20]!r}')
		text = getattr(source, 'source', None)
		mon.check('returned', isinstance(text, str), lambda: f'render returned {source!r}')
		try:
			drawing = dot.parse(text)
		except dot.DotError as e:
			raise Violation('returned', f'{e} in {text!r}')
		self.judge_drawing(mon, m, drawing, 'returned', strict=False)
		if kind == 'svg':
			self.judge_svg(mon, m, data, strict)
		elif kind in ('dot', 'xdot'):
			try:
				drawing = dot.parse(data.decode('utf-8'))
			except (dot.DotError, UnicodeDecodeError) as e:
				raise Violation('format', f'a {kind} file cannot be read: {e}')
			mon.check('format', True)
			self.judge_drawing(mon, m, drawing, 'drawn', strict)
			self.judge_size(case['ask'], mon, drawing)
		elif kind == 'json':
			import json
			try:
				objects = json.loads(data)
			except ValueError as e:
				raise Violation('format', f'a json file cannot be read: {e}')
			nodes = [o for o in objects.get('objects', []) if 'nodes' not in o and 'subgraphs' not in o and not o.get('name', '').startswith('%') or 'pos' in o]
			mon.equal('drawn-nodes', len(nodes), len(m.nodes), 'nodes of the saved file')
			mon.equal('drawn-edges', len(objects.get('edges', [])), self.number_of_edges(m, strict), 'edges of the saved file')
		elif kind == 'plain':
			lines = data.decode('utf-8').split('\n')
			mon.equal('drawn-nodes', sum(x.startswith('node ') for x in lines), len(m.nodes), 'nodes of the saved file') if all(readable(n) and '\n' not in str(n) for n in m.nodes) else None
		if kind in ('png', 'gif') and not {'height', 'width'} & set(case['ask']):
			# the picture is the one Graphviz makes of the source that was returned
			expected = subprocess.run([dot.DOT, f'-T{kind}'], input=text.encode('utf-8'), capture_output=True, env=dot.ENVIRONMENT).stdout
			mon.check('same-picture', data == expected, 'the picture is not the one of the returned source')

	def number_of_edges(self, m, strict):
		return len({k[:2] for k in m.edges}) if strict else len(m.edges)

	def judge_drawing(self, mon, m, drawing, clause, strict):
		def name(x):
			return str(x)
		nodes = Counter(name(n) for n, _ in drawing.nodes)
		node_clause, edge_clause = (clause, clause) if clause == 'returned' else ('drawn-nodes', 'drawn-edges')
		mon.equal(node_clause, len(drawing.nodes), len(m.nodes), 'number of nodes')
		edges = Counter((name(s), name(e)) for s, e, _ in drawing.edges)
		mon.equal(edge_clause, sum(edges.values()), self.number_of_edges(m, strict), 'number of edges')
		if self.plain(m):
			mon.equal(node_clause, nodes, Counter(map(str, m.nodes)), 'nodes')
			expected = Counter((str(k[0]), str(k[1])) for k in m.edges)
			mon.equal(edge_clause, edges, Counter(set(expected)) if strict else expected, 'edges')

	def plain(self, m):
		return all(re.fullmatch(r'[A-Za-z0-9_]+', str(n)) for n in m.nodes)

	def judge_svg(self, mon, m, data, strict):
		try:
			root = ElementTree.fromstring(data)
		except ElementTree.ParseError as e:
			raise Violation('format', f'an SVG picture cannot be read: {e} in {data[:200]!r}')
		local = lambda x: x.tag.rsplit('}', 1)[-1]
		mon.equal('format', local(root), 'svg', 'root of an SVG picture')
		found = dict(node=[], edge=[])
		for x in root.iter():
			if local(x) == 'g' and x.get('class') in found:
				found[x.get('class')].append([t.text for t in x if local(t) == 'title'])
		mon.equal('svg-nodes', len(found['node']), len(m.nodes), 'node elements')
		mon.equal('svg-edges', len(found['edge']), self.number_of_edges(m, strict), 'edge elements')
		if self.plain(m):
			mon.equal('svg-nodes', sorted(found['node']), sorted([str(n)] for n in m.nodes), 'titles of node elements')
			expected = Counter(f'{k[0]}->{k[1]}' for k in m.edges)
			expected = Counter(set(expected)) if strict else expected
			mon.equal('svg-edges', Counter(t[0] for t in found['edge']), expected, 'titles of edge elements')

	def show(self, d, case, mon, scratch, strict):
		before = listing(scratch)
		stub_ipython()
		asked = case['ask'] if case['shown'].endswith(' asked') else {}
		source, _ = mon.call('render', d.g.render, clause='svg-text', **asked)
		try:
			self.judge_size(asked, mon, dot.parse(source.source))
		except dot.DotError as e:
			raise Violation('returned', f'{e} in {source.source!r}')
		with WATCH as watch:
			if case['shown'].startswith('get_html'):
				html, _ = mon.call('get_html', d.g.get_html, clause='html', **asked)
				text = html.data
			elif case['shown'] == '_repr_html_':
				text, _ = mon.call('_repr_html_', d.g._repr_html_, clause='svg-text')
			else:
				text, _ = mon.call('get_svg', d.g.get_svg, clause='svg-text', **asked)
		for record in watch.records:
			mon.check('outside', record[0] == 'start' and record[1] == 'dot' or record[1] in ('/dev/null',), lambda: f'{record!r} while an SVG text was made')
		mon.check('svg-text', isinstance(text, str) and '<svg' in text, lambda: f'{case["shown"]} gave {text!r:.200}')
		mon.equal('nothing-else', listing(scratch), before, 'files after an SVG text was made')
		self.judge_svg(mon, d.m, text.encode('utf-8'), strict)
		# the picture is the one Graphviz makes of the source that render returns for the same request
		expected = subprocess.run([dot.DOT, '-Tsvg'], input=source.source.encode('utf-8'), capture_output=True, env=dot.ENVIRONMENT).stdout.decode('utf-8')
		mon.check('asked', re.sub('\r\n?', '\n', text) == re.sub('\r\n?', '\n', expected), lambda: f'{case["shown"]} with {asked} is not the picture of the source that render gives')

	def refuse(self, d, case, mon, scratch, path):
		"""what cannot be written is an error, not silence"""
		blocker = os.path.join(scratch, 'base', 'blocker')
		with open(blocker, 'w') as f:
			f.write('a file')
		before = listing(scratch)
		if case['refuse'] == 'case':
			return self.other_case(d, case, mon, scratch, before)
		target = os.path.join(scratch, 'base', 'pic.nosuchformat') if case['refuse'] == 'format' else os.path.join(blocker, 'pic.svg')
		with silence():
			mon.call('render', d.g.render, target, view=False, raises=ANY, clause='refused')
		mon.check('refused', not os.path.exists(target), 'a file was written all the same')
		after = listing(scratch)
		mon.equal('refused', {k: v for k, v in after.items() if k in before}, before, 'files after a path was refused')

	def other_case(self, d, case, mon, scratch, before):
		"""an extension in capital letters may be refused; if it is not, the picture is where it was asked for"""
		kind = case['format']
		name = f'capital.{kind.upper() if len(case["nodes"]) % 2 else kind.title()}'
		target = os.path.join(scratch, 'base', name)
		with silence():
			try:
				d.g.render(target, view=False)
				refused = False
			except Exception:
				refused = True
		after = listing(scratch)
		mon.equal('refused', {k: v for k, v in after.items() if k in before}, before, 'files after a path was refused')
		mon.check('exact-path', refused or os.path.isfile(target), lambda: f'render({target!r}) did not write it, there are {sorted(set(after) - set(before))!r}')
		if refused:
			mon.check('refused', f'base/{os.path.splitext(name)[0]}.{kind}' not in after, 'a picture was written all the same')

	def fingerprint(self, case, mon):
		return super().fingerprint(case, mon) if case['nodes'] else None


PROP = C24()
