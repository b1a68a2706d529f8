"""Reads the text tree back."""
CORNER, TWO_WAY, VERTICAL = '\u2514', '\u251c', '\u2502'


class TreeError(Exception):
	pass


def parse_line(line):
	"""(depth, is_last, bars, text): bars[i] tells whether a line is drawn in column i"""
	bars = []
	rest = line
	while True:
		if rest.startswith('  '):
			bars.append(False)
		elif rest.startswith(VERTICAL + ' '):
			bars.append(True)
		else:
			break
		rest = rest[2:]
	if rest.startswith((CORNER + ' ', TWO_WAY + ' ')):
		return len(bars) + 1, rest[0] == CORNER, bars, rest[2:]
	if bars:
		raise TreeError(f'line without connector: {line!r}')
	return 0, None, [], rest


def parse(text):
	"""list of root items; item: dict(label, last, children, line)"""
	roots = []
	path = []
	for number, line in enumerate(text.split('\n')):
		if line == '':
			continue
		depth, last, bars, label = parse_line(line)
		if depth > len(path):
			raise TreeError(f'line {number} is nested too deep: {line!r}')
		item = dict(label=label, last=last, children=[], line=line)
		del path[depth:]
		if depth == 0:
			roots.append(item)
		else:
			path[depth - 1]['children'].append(item)
			for i, bar in enumerate(bars):
				if path[i + 1]['last'] == bar:
					raise TreeError(f'line {number} has a wrong bar in column {i}: {line!r}')
		path.append(item)
	return roots


def walk(items):
	stack = [(None, x) for x in reversed(items)]
	while stack:
		parent, x = stack.pop()
		yield parent, x
		stack += [(x, c) for c in reversed(x['children'])]
