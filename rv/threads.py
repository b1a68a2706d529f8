"""
Runs functions in threads of which one moves at a time. At every line (or bytecode) of the package a seeded choice decides
whether another thread goes on, so an interleaving is a function of the seed and can be replayed.
"""
import collections
import hashlib
import os
import random
import sys
import threading
import time

from . import env

SWITCH_TOOL = 3
PATIENCE = 5


class Scheduler:
	def __init__(self, seed, mode, spots=None):
		"""spots: the lines that are reached, and how often"""
		self.rng = random.Random(seed)
		self.mode = mode
		self.gates = []
		self.index = {}
		self.live = []
		self.points = 0
		self.switches = 0
		self.free = False
		self.seen = collections.Counter()
		self.trail = hashlib.blake2b(digest_size=8)
		self.hits = {}
		self.once = mode in ('once', 'twice', 'two')
		self.left = dict(once=1, twice=2, two=2).get(mode, 0)
		self.target = None
		self.spots = spots
		if spots and mode in ('line', 'function', 'once', 'twice', 'two'):
			self.aim()

	def aim(self):
		self.target = self.rng.choice(sorted(self.spots))
		# the first times a line is reached are likelier than the later ones
		n = self.spots[self.target]
		self.nth = self.rng.choice([1, min(2, n), self.rng.randint(1, n), self.rng.randint(1, n)])

	# where another thread may go on
	def decide(self, me, code, where):
		if self.mode == 'record':
			self.seen[(code.co_filename, code.co_name, code.co_firstlineno, where)] += 1
			return False
		if self.once:
			if self.left and self.target[3] == where and self.target[0] == code.co_filename:
				self.hits[me] = self.hits.get(me, 0) + 1
				if self.hits[me] >= self.nth:
					self.left -= 1
					if self.left and self.mode == 'two':
						# somewhere else the next time
						self.aim()
						self.hits = {}
					return True
			return False
		if self.mode == 'line' and self.target[0] == code.co_filename and self.target[3] == where:
			return self.rng.random() < 0.7
		if self.mode == 'function' and self.target[:3] == (code.co_filename, code.co_name, code.co_firstlineno):
			return self.rng.random() < 0.5
		return self.rng.random() < dict(often=0.3, sometimes=0.03, seldom=0.003, opcodes=0.02).get(self.mode, 0.001)

	def point(self, code, where):
		me = self.index.get(threading.get_ident())
		if me is None:
			return
		self.points += 1
		if self.free or not self.decide(me, code, where):
			return
		others = [i for i in self.live if i != me]
		if others:
			self.switches += 1
			self.trail.update(f'{me} {code.co_name} {where}\n'.encode())
			self.open(self.rng.choice(others))
			self.wait(me)

	def open(self, i):
		try:
			self.gates[i].release()
		except RuntimeError:
			pass

	def wait(self, me):
		seen = -1
		while not self.gates[me].acquire(timeout=PATIENCE):
			if self.free:
				return
			if seen == self.points:
				# the one that may move waits for something: from here on all of them move by themselves
				self.free = True
				for i in range(len(self.gates)):
					self.open(i)
				return
			seen = self.points

	def run(self, functions, timeout):
		"""the results, or exceptions, of the functions; None for what did not finish"""
		results = [None] * len(functions)
		self.gates = [threading.Lock() for _ in functions]
		self.live = list(range(len(functions)))
		ready = threading.Barrier(len(functions) + 1)
		for gate in self.gates:
			gate.acquire()

		def body(i, f):
			self.index[threading.get_ident()] = i
			ready.wait()
			self.wait(i)
			try:
				results[i] = ('done', f())
			except BaseException as e:
				results[i] = ('raised', f'{type(e).__name__}: {e}')
			finally:
				self.live.remove(i)
				others = list(self.live)
				if others:
					self.open(self.rng.choice(others))

		threads = [threading.Thread(target=body, args=(i, f), daemon=True) for i, f in enumerate(functions)]
		with watched(self):
			for t in threads:
				t.start()
			ready.wait()
			self.open(self.rng.choice(self.live))
			# as long as there is progress
			seen, since = -1, time.monotonic()
			while time.monotonic() - since < timeout:
				alive = [t for t in threads if t.is_alive()]
				if not alive:
					break
				alive[0].join(1)
				if self.points != seen:
					seen, since = self.points, time.monotonic()
		return results


class watched:
	"""lines (or bytecodes) of the package call scheduler.point"""
	def __init__(self, scheduler):
		self.scheduler = scheduler

	def __enter__(self):
		mon = sys.monitoring
		prefix = env.PACKAGE + os.sep
		point = self.scheduler.point

		def at(code, where):
			if not code.co_filename.startswith(prefix):
				return mon.DISABLE
			point(code, where)

		mon.use_tool_id(SWITCH_TOOL, 'rv-switch')
		event = mon.events.INSTRUCTION if self.scheduler.mode == 'opcodes' else mon.events.LINE
		mon.register_callback(SWITCH_TOOL, event, at)
		mon.set_events(SWITCH_TOOL, event)
		self.event = event

	def __exit__(self, *_):
		mon = sys.monitoring
		mon.set_events(SWITCH_TOOL, 0)
		mon.register_callback(SWITCH_TOOL, self.event, None)
		mon.free_tool_id(SWITCH_TOOL)
