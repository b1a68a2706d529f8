"""Executable reference model: what a directed multigraph with attributes is, independent of the code under test."""
import copy


class MItem:
	def __init__(self, **kw):
		self.label = kw.get('label')
		self.value = kw.get('value')
		self.style = kw.get('style')      # a style specification or None
		self.tooltip = kw.get('tooltip')
		self.parameters = dict(kw.get('parameters') or {})
		self.frozen = False

	def content(self):
		return self.label, self.value, self.style, self.tooltip, self.parameters, self.frozen


class Model:
	def __init__(self):
		self.nodes = {}   # name -> MItem, in order of addition
		self.edges = {}   # (start, end, id) -> MItem, in order of connection

	def copy(self):
		return copy.deepcopy(self)

	# edits
	def add_node(self, name, **kw):
		self.nodes[name] = MItem(**kw)

	def connect(self, start, end, id=None, **kw):
		self.edges[(start, end, id)] = MItem(**kw)

	def remove_node(self, name):
		for key in self.edges_of(name):
			del self.edges[key]
		del self.nodes[name]

	def remove_edge(self, key):
		del self.edges[key]

	# views
	def outward(self, name):
		return [k for k in self.edges if k[0] == name]

	def inward(self, name):
		return [k for k in self.edges if k[1] == name]

	def edges_of(self, name):
		return [k for k in self.edges if name in (k[0], k[1])]

	def children(self, name):
		return [k[1] for k in self.outward(name)]

	def parents(self, name):
		return [k[0] for k in self.inward(name)]

	def siblings(self, name):
		return {c for p in self.parents(name) for c in self.children(p)} - {name}

	def spouses(self, name):
		return {p for c in self.children(name) for p in self.parents(c)} - {name}

	def absolute_roots(self):
		ends = {k[1] for k in self.edges}
		return [n for n in self.nodes if n not in ends]

	def leaves(self):
		starts = {k[0] for k in self.edges}
		return [n for n in self.nodes if n not in starts]

	def adjacency(self, forward=True):
		result = {n: [] for n in self.nodes}
		for s, e, _ in self.edges:
			if forward:
				result[s].append(e)
			else:
				result[e].append(s)
		return result

	def distances(self, name, forward=True, adjacency=None):
		"""shortest number of edges (>= 1) from name to every node reachable by at least one edge"""
		adjacency = adjacency or self.adjacency(forward)
		result = {}
		frontier = [name]
		d = 0
		while frontier:
			d += 1
			following = []
			for x in frontier:
				for y in adjacency[x]:
					if y not in result:
						result[y] = d
						following.append(y)
			frontier = following
		return result

	def reach(self, forward=True):
		adjacency = self.adjacency(forward)
		return {n: self.distances(n, adjacency=adjacency) for n in self.nodes}

	def induced(self, names):
		result = Model()
		for n, x in self.nodes.items():
			if n in names:
				result.nodes[n] = copy.deepcopy(x)
		for k, x in self.edges.items():
			if k[0] in names and k[1] in names:
				result.edges[k] = copy.deepcopy(x)
		return result

	def shape(self):
		return tuple(self.nodes), tuple(self.edges)


def loop_info(model):
	"""(nodes on a cycle, function same_loop(a, b))"""
	reach = model.reach()
	on_cycle = {n for n in model.nodes if n in reach[n]}

	def same(a, b):
		return b in reach[a] and a in reach[b]
	return on_cycle, same
