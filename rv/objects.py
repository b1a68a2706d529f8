"""Structures of objects that report their parents and children, in the flavours users write them."""
import json


class Identity:
	"""default equality and hash"""
	def __init__(self, world, name):
		self.world, self.name = world, name

	def __parents__(self):
		return self.world.answer(self, self.world.parents[self.name], 'parents')

	def __children__(self):
		return self.world.answer(self, self.world.children[self.name], 'children')

	def __str__(self):
		return self.world.text(self.name)

	def __bool__(self):
		# an empty container, say
		return self.name not in self.world.false


class ByName(Identity):
	"""equal when the names are equal; answers are fresh objects every time"""
	def __eq__(self, other):
		return isinstance(other, ByName) and self.name == other.name

	def __hash__(self):
		return hash(('ByName', self.name)) if not self.world.small else self.world.number[self.name]


class Unhashable(ByName):
	"""equal when the names are equal, in no set or dictionary"""
	__hash__ = None


class World:
	def __init__(self, spec):
		self.spec = spec
		self.kind = spec['kind']
		self.small = spec.get('small', False)
		self.names = spec['names']
		self.number = {n: i for i, n in enumerate(self.names)}
		self.parents = {n: [] for n in self.names}
		self.children = {n: [] for n in self.names}
		for s, e in spec['links']:
			self.children[s].append(e)
			self.parents[e].append(s)
		self.cls = Identity if self.kind == 'identity' else ByName
		self.false = set(spec.get('false', ()))
		self.made = {}
		self.lists = {}
		self.calls = 0

	def text(self, name):
		return self.spec.get('texts', {}).get(name, f'object {name}')

	def get(self, name):
		if self.kind == 'identity':
			if name not in self.made:
				self.made[name] = Identity(self, name)
			return self.made[name]
		return (Unhashable if self.kind == 'unhashable' else ByName)(self, name)

	def answer(self, asker, names, kind):
		self.calls += 1
		result = [self.get(n) for n in names]
		if self.spec.get('live') and self.kind == 'identity':
			# the list that the object keeps, not a copy of it
			return self.lists.setdefault((asker.name, kind), result)
		return tuple(result) if self.spec.get('tuples') else result

	def links(self):
		"""everything the objects hold, to see whether it was changed"""
		kept = [[*key, [x.name for x in names]] for key, names in sorted(self.lists.items())]
		changed = [x for x in kept if x[2] != (self.parents if x[1] == 'parents' else self.children)[x[0]]]
		return json.dumps([self.parents, self.children, changed])

	def distances(self, start, neighbours, limit=None):
		"""shortest number of steps from start to every other reachable name, within the limit"""
		found = {start: 0}
		level = [start]
		d = 0
		while level and (limit is None or d < limit):
			d += 1
			following = []
			for x in level:
				for y in neighbours[x]:
					if y not in found:
						found[y] = d
						following.append(y)
			level = following
		del found[start]
		return found


def make_spec(rng, max_nodes=9, max_links=18, hostile=0.0):
	from . import gen
	t = gen.topology(rng, max_nodes=max_nodes, max_edges=max_links, ids=rng.random() < 0.15, hostile=hostile)
	names = t['nodes'] or ['a']
	return dict(
		false=[n for n in names if rng.random() < 0.3] if rng.random() < 0.25 else [], live=rng.random() < 0.3, kind=rng.choice(['identity', 'by-name']), small=rng.random() < 0.5, tuples=rng.random() < 0.3, names=names,
		links=[[s, e] for s, e, _ in t['edges']], topology=t['kind']
	)
