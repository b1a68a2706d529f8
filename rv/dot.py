"""
Reads DOT source back (the grammar of graphviz.org/doc/info/lang.html, quoted strings as in Graphviz' own scanner), and
runs the installed Graphviz as a second, independent reader.
"""
import json
import os
import re
import subprocess

from .core import SkipCase

DOT = '/usr/bin/dot'
KEYWORDS = ('node', 'edge', 'graph', 'digraph', 'subgraph', 'strict')


class DotError(Exception):
	pass


class Quoted(str):
	pass


class Html(str):
	pass


class Plain(str):
	pass


PLAIN = re.compile(r'[A-Za-z_\u0080-\U0010ffff][A-Za-z_0-9\u0080-\U0010ffff]*|-?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?)')


def tokens(text):
	result = []
	i, size = 0, len(text)
	while i < size:
		c = text[i]
		if c in ' \t\r\n\f\v':
			i += 1
		elif text.startswith('//', i) or (c == '#' and (i == 0 or text[i - 1] == '\n')):
			end = text.find('\n', i)
			i = size if end < 0 else end
		elif text.startswith('/*', i):
			end = text.find('*/', i)
			if end < 0:
				raise DotError('comment without end')
			i = end + 2
		elif text.startswith('->', i):
			result.append('->')
			i += 2
		elif text.startswith('--', i):
			raise DotError('undirected edge')
		elif c in '{}[];,=:+':
			result.append(c)
			i += 1
		elif c == '"':
			i += 1
			parts = []
			while True:
				if i >= size:
					raise DotError('text without closing quote')
				c = text[i]
				if c == '"':
					i += 1
					break
				if c == '\\' and i + 1 < size:
					n = text[i + 1]
					if n == '"':
						parts.append('"')
						i += 2
						continue
					if n == '\\':
						parts.append('\\\\')
						i += 2
						continue
					if n in '\r\n':
						i += 3 if text.startswith('\r\n', i + 1) else 2
						continue
				parts.append(c)
				i += 1
			result.append(Quoted(''.join(parts)))
		elif c == '<':
			depth, start = 1, i + 1
			i += 1
			while depth:
				if i >= size:
					raise DotError('HTML text without end')
				depth += {'<': 1, '>': -1}.get(text[i], 0)
				i += 1
			result.append(Html(text[start:i - 1]))
		else:
			match = PLAIN.match(text, i)
			if not match:
				raise DotError(f'unexpected character {c!r} near {text[max(0, i - 30):i + 30]!r}')
			result.append(Plain(match.group()))
			i = match.end()
	return result


class Drawing:
	def __init__(self):
		self.strict = False
		self.directed = False
		self.attributes = {}   # of the graph
		self.nodes = []        # (name, {attributes}) one entry per node statement
		self.edges = []        # (start, end, {attributes}) one entry per edge statement
		self.defaults = []

	def node_names(self):
		return [n for n, _ in self.nodes]


def is_id(t):
	return isinstance(t, (Quoted, Html)) or (isinstance(t, Plain) and t.lower() not in KEYWORDS)


def parse(text):
	ts = tokens(text)
	position = 0
	d = Drawing()

	def peek():
		return ts[position] if position < len(ts) else None

	def keyword(t, *words):
		return isinstance(t, Plain) and t.lower() in words

	def take(expected=None):
		nonlocal position
		t = peek()
		if t is None or (expected is not None and (type(t) is not str or t != expected)):
			raise DotError(f'expected {expected!r}, found {t!r} as token {position}')
		position += 1
		return t

	def symbol(s):
		t = peek()
		return type(t) is str and t == s

	def take_id():
		t = take()
		if not is_id(t):
			raise DotError(f'expected an ID, found {t!r} as token {position}')
		while isinstance(t, Quoted) and symbol('+'):
			take()
			t = Quoted(t + take())
		return t

	def attribute_list():
		result = {}
		while symbol('['):
			take('[')
			while not symbol(']'):
				key = take_id()
				take('=')
				value = take_id()
				if str(key) in result:
					raise DotError(f'attribute {key!r} is stated twice')
				result[str(key)] = value
				if symbol(',') or symbol(';'):
					take()
			take(']')
		return result

	def statements():
		take('{')
		while not symbol('}'):
			t = peek()
			if t is None:
				raise DotError('graph without end')
			if symbol(';'):
				take()
			elif symbol('{') or keyword(t, 'subgraph'):
				if keyword(t, 'subgraph'):
					take()
					if is_id(peek()):
						take()
				statements()
				if symbol('->'):
					raise DotError('edge of a subgraph')
			elif keyword(t, 'graph', 'node', 'edge'):
				take()
				attributes = attribute_list()
				if t.lower() == 'graph':
					d.attributes.update(attributes)
				else:
					d.defaults.append((t.lower(), attributes))
			else:
				name = take_id()
				if symbol('='):
					take()
					d.attributes[str(name)] = take_id()
				elif symbol('->'):
					chain = [name]
					while symbol('->'):
						take()
						chain.append(take_id())
						if symbol(':'):
							raise DotError('edge with a port')
					attributes = attribute_list()
					for s, e in zip(chain, chain[1:]):
						d.edges.append((str(s), str(e), attributes))
				else:
					if symbol(':'):
						raise DotError('node with a port')
					d.nodes.append((str(name), attribute_list()))
		take('}')

	if keyword(peek(), 'strict'):
		take()
		d.strict = True
	if not keyword(peek(), 'digraph'):
		raise DotError(f'not a directed graph: {peek()!r}')
	take()
	d.directed = True
	if is_id(peek()):
		take()
	statements()
	if peek() is not None:
		raise DotError(f'text after the graph: {peek()!r}')
	return d


def same_text(shown, text):
	"""
	whether a text read back is the given text. A backslash sequence keeps its meaning, so backslashes are kept as they are;
	only those before a quote, a line break or the end cannot be written singly: there \\\\ stands for one.
	"""
	text = str(text)
	pattern = []
	i = 0
	while i < len(text):
		if text[i] == '\\':
			j = i
			while j < len(text) and text[j] == '\\':
				j += 1
			run = j - i
			if j == len(text) or text[j] in '"\r\n':
				pattern.append(r'(?:%s|%s)' % (r'\\' * run, r'\\' * (2 * run)))
			else:
				pattern.append(r'\\' * run)
			i = j
		else:
			pattern.append(re.escape(text[i]))
			i += 1
	return re.fullmatch(''.join(pattern), str(shown), re.DOTALL) is not None


ENVIRONMENT = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'LC_ALL': 'C.UTF-8'}


def graphviz(sources):
	"""the drawings that Graphviz itself reads; raises DotError when it rejects one"""
	text = '\n'.join(sources)
	def run(kind, timeout):
		return subprocess.run([DOT, kind], input=text.encode('utf-8'), capture_output=True, timeout=timeout, env=ENVIRONMENT)
	try:
		p = run('-Tdot_json', 30)
	except subprocess.TimeoutExpired:
		p = None
	if (p is None or p.returncode < 0) and run('-Tcanon', 60).returncode == 0:
		# it reads the source, but its layout crashed (as with concentrate) or takes too long (as with remincross)
		raise SkipCase('the layout of Graphviz crashed or did not finish')
	if p is None:
		raise DotError('Graphviz does not read the source')
	errors = p.stderr.decode('utf-8', 'replace')
	if p.returncode != 0 or 'syntax error' in errors or 'Error' in errors:
		raise DotError(f'Graphviz rejects the source (exit {p.returncode}): {errors[:500]}')
	output = p.stdout.decode('utf-8', 'replace')
	decoder = json.JSONDecoder(strict=False)
	result = []
	position = 0
	while position < len(output):
		while position < len(output) and output[position].isspace():
			position += 1
		if position >= len(output):
			break
		data, position = decoder.raw_decode(output, position)
		d = Drawing()
		d.strict, d.directed = data['strict'], data['directed']
		skip = ('name', 'directed', 'strict', '_subgraph_cnt', 'objects', 'edges')
		d.attributes = {k: v for k, v in data.items() if k not in skip}
		by_id = {}
		for x in data.get('objects', []):
			if 'nodes' in x or 'subgraphs' in x or x['_gvid'] < data.get('_subgraph_cnt', 0):
				continue
			by_id[x['_gvid']] = x['name']
			d.nodes.append((x['name'], {k: v for k, v in x.items() if k not in ('_gvid', 'name')}))
		for x in data.get('edges', []):
			d.edges.append((by_id[x['tail']], by_id[x['head']], {k: v for k, v in x.items() if k not in ('_gvid', 'tail', 'head')}))
		result.append(d)
	return result
