"""
Monitor kernel: events, clauses, verdicts, step watchdog, workload runner, shrinking, evidence.

A property module defines a subclass of Prop:
	id, clauses (names of the monitor clauses that must have been evaluated for a verdict),
	rule (what a case is, what makes it non-trivial), level, assumptions,
	generate(rng, index, tier) -> case (JSON-able),
	execute(case, mon) -> None    runs the real code and evaluates clauses on what it observes.
"""
import hashlib
import json
import multiprocessing
import os
import random
import re
import signal
import sys
import time
import traceback
import warnings
from collections import Counter

from . import env, values
from .driver import Driver

STEP_TOOL = 4
COVER_TOOL = 5


class Violation(Exception):
	def __init__(self, clause, message):
		super().__init__(f'[{clause}] {message}')
		self.clause = clause
		self.message = message


class Inconclusive(BaseException):
	"""wall-clock watchdog; BaseException so that code under test cannot swallow it"""


class StepLimit(BaseException):
	"""the code under test made more logical steps than any terminating run of this size could need"""


class SkipCase(Exception):
	"""case outside of the quantifier"""


class Steps:
	"""counts loop iterations and function starts inside the repository; stops runaway executions"""
	def __init__(self):
		self.count = 0
		self.limit = None
		self.total = 0
		self.peak = 0
		self.lines = set()
		self.installed = False

	def install(self):
		mon = sys.monitoring
		mon.use_tool_id(STEP_TOOL, 'rv-steps')
		mon.use_tool_id(COVER_TOOL, 'rv-cover')
		prefix = env.PACKAGE + os.sep
		E = mon.events

		def in_repo(code):
			return code.co_filename.startswith(prefix)

		def tick(code, *_):
			if not in_repo(code):
				return mon.DISABLE
			self.count += 1
			if self.limit is not None and self.count > self.limit:
				self.limit = None
				raise StepLimit()

		def line(code, number):
			if in_repo(code):
				self.lines.add((code.co_filename[len(prefix):], number))
			return mon.DISABLE

		mon.register_callback(STEP_TOOL, E.PY_START, tick)
		mon.register_callback(STEP_TOOL, E.JUMP, tick)
		mon.register_callback(COVER_TOOL, E.LINE, line)
		mon.set_events(STEP_TOOL, E.PY_START | E.JUMP)
		mon.set_events(COVER_TOOL, E.LINE)
		self.installed = True

	def arm(self, limit):
		self.count = 0
		self.limit = limit

	def rearm(self):
		"""a new operation starts: the limit is per operation"""
		if self.limit is not None:
			self.total += self.count
			if self.count > self.peak:
				self.peak = self.count
			self.count = 0

	def disarm(self):
		self.peak = max(self.peak, self.count)
		self.total += self.count
		self.limit = None
		self.count = 0


STEPS = Steps()


class Mon:
	"""what the monitors observed"""
	def __init__(self):
		self.events = Counter()
		self.clauses = Counter()
		self.states = set()
		self.trace = []
		self.notes = Counter()

	def event(self, kind, *detail):
		STEPS.rearm()
		self.events[kind] += 1
		if len(self.trace) < 400:
			self.trace.append(' '.join([kind] + [repr(d)[:120] for d in detail]))

	def check(self, clause, condition, message=''):
		STEPS.rearm()
		self.clauses[clause] += 1
		if not condition:
			raise Violation(clause, message() if callable(message) else message)

	def equal(self, clause, observed, expected, what=''):
		STEPS.rearm()
		self.clauses[clause] += 1
		if observed != expected:
			raise Violation(clause, f'{what}: observed {observed!r:.600}, expected {expected!r:.600}')

	def call(self, kind, function, *args, raises=None, clause=None, **kwargs):
		"""
		calls the real code, recording call and return at the client's side.
		raises: None (must not raise) or exception classes (must raise one of them).
		returns (result, [warnings])
		"""
		self.event('call:' + kind, args, kwargs)
		clause = clause or ('rejects' if raises else 'accepts')
		with warnings.catch_warnings(record=True) as caught:
			warnings.simplefilter('always')
			try:
				result = function(*args, **kwargs)
			except Exception as e:
				self.event('raise:' + kind, type(e).__name__)
				self.clauses[clause] += 1
				if raises is None:
					where = traceback.extract_tb(e.__traceback__)[-1]
					raise Violation(clause, f'{kind}{args!r:.200} {kwargs!r:.200} raised {type(e).__name__}: {e} at {os.path.basename(where.filename)}:{where.lineno}') from e
				if not isinstance(e, raises):
					raise Violation(clause, f'{kind}{args!r:.200} {kwargs!r:.200} raised {type(e).__name__}: {e}, expected {raises}') from e
				return e, caught
		self.clauses[clause] += 1
		if raises is not None:
			raise Violation(clause, f'{kind}{args!r:.200} {kwargs!r:.200} was accepted, expected {raises}')
		return result, caught

	def state(self, key):
		self.states.add(hashlib.blake2b(repr(key).encode('utf-8', 'backslashreplace'), digest_size=8).digest())


class Prop:
	id = None
	clauses = ()
	rule = ''
	level = 'exploration'
	assumptions = ()
	quick = 1000
	thorough = 20000
	step_limit = 50_000_000
	case_timeout = 120
	processes = 8
	shrink_keys = ('ops',)
	decodes = True  # whether the values in a case are put in before it is run
	findings = ()  # the entries of known_findings.json for this property

	def generate(self, rng, index, tier):
		raise NotImplementedError

	def execute(self, case, mon):
		raise NotImplementedError

	def fingerprint(self, case, mon):
		"""None for a trivial case"""
		return json.dumps(case, sort_keys=True, default=str)

	def extra(self, report, tier, seed):
		"""hook for deterministic probes outside of the workload; may raise Violation"""

	# running one case
	def run_case(self, case, mon, execute=None):
		"""returns None or a Violation"""
		def alarm(*_):
			raise Inconclusive('case watchdog')
		# processor time, so that a busy machine does not matter, and wall-clock time for what waits
		signal.signal(signal.SIGALRM, alarm)
		signal.signal(signal.SIGVTALRM, alarm)
		signal.setitimer(signal.ITIMER_VIRTUAL, self.case_timeout)
		signal.alarm(self.case_timeout * 3)
		STEPS.arm(self.step_limit)
		Driver.constructors = case.get('constructors', 0) if isinstance(case, dict) else 0
		try:
			(execute or self.execute)(values.decode(case) if self.decodes else case, mon)
			return None
		except Violation as v:
			return v
		except SkipCase:
			mon.notes['skipped'] += 1
			return None
		except StepLimit:
			return Violation('terminates', f'more than {self.step_limit} steps inside the library for one operation')
		except RecursionError as e:
			return Violation('terminates', f'recursion without end: {e}')
		except Exception as e:
			tb = traceback.extract_tb(e.__traceback__)
			where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(tb[-4:]))
			return Violation('well-formed-answers', f'{type(e).__name__}: {e} at {where}')
		finally:
			STEPS.disarm()
			signal.setitimer(signal.ITIMER_VIRTUAL, 0)
			signal.alarm(0)

	def case_for(self, seed, index, tier):
		rng = random.Random(f'{self.id}:{seed}:{tier}:{index}')
		case = self.generate(rng, index, tier)
		if isinstance(case, dict):
			# some programs make (every second of) their nodes by the constructor
			kind = random.Random(f'constructors:{self.id}:{seed}:{tier}:{index}').random()
			if kind < 0.15:
				case['constructors'] = 1 if kind < 0.07 else 2
		return case


def _worker(prop, seed, tier, count, chunk, deadline, next_index, stop, connection):
	"""takes chunks of case indices until none is left; sends one report"""
	try:
		STEPS.install()
		mon = Mon()
		distinct = set()
		samples = []
		violation = None
		done = 0
		slowest = (0.0, -1)
		inconclusive = None
		while violation is None and inconclusive is None and not stop.value:
			with next_index.get_lock():
				first = next_index.value
				next_index.value = first + chunk
			if first >= count:
				break
			for index in range(first, min(first + chunk, count)):
				if time.time() > deadline:
					inconclusive = 'wall-clock budget'
					break
				mon.trace = []
				began = time.process_time()
				try:
					case = prop.case_for(seed, index, tier)
					v = prop.run_case(case, mon)
				except Inconclusive as e:
					inconclusive = f'case {index}: {e}'
					break
				done += 1
				slowest = max(slowest, (round(time.process_time() - began, 2), index))
				finding = known_finding(prop, v)
				if finding is not None:
					mon.notes['known:' + finding['id']] += 1
					continue
				if v is not None:
					violation = dict(index=index, case=case, clause=v.clause, message=v.message, trace=mon.trace[-80:])
					stop.value = 1
					break
				f = prop.fingerprint(case, mon)
				if f is not None:
					distinct.add(hashlib.blake2b(str(f).encode('utf-8', 'backslashreplace'), digest_size=8).digest())
					if len(samples) < 2:
						samples.append(dict(index=index, case=case, observed=mon.trace[:12]))
		connection.send(dict(
			done=done, violation=violation, inconclusive=inconclusive, events=mon.events, clauses=mon.clauses,
			states=mon.states, notes=mon.notes, distinct=distinct, samples=samples, steps=STEPS.total, peak=STEPS.peak, lines=set(STEPS.lines), slowest=slowest
		))
	except BaseException as e:
		connection.send(dict(error=''.join(traceback.format_exception(e))[-3000:]))
	finally:
		connection.close()


def _run_workers(prop, seed, tier, count, deadline):
	context = multiprocessing.get_context('fork')
	next_index = context.Value('l', 0)
	stop = context.Value('i', 0, lock=False)
	chunk = max(1, min(100, count // (prop.processes * 6)))
	workers = []
	for _ in range(prop.processes):
		receive, send = context.Pipe(duplex=False)
		process = context.Process(
			target=_worker, args=(prop, seed, tier, count, chunk, deadline, next_index, stop, send), daemon=True
		)
		process.start()
		send.close()
		workers.append((process, receive))
	for process, receive in workers:
		try:
			if receive.poll(max(1, deadline - time.time()) + prop.case_timeout * 3 + 10):
				yield receive.recv()
			else:
				yield dict(error='worker did not answer')
		except EOFError:
			yield dict(error='worker died')
		if process.is_alive():
			process.join(5)
			if process.is_alive():
				process.kill()


def shrink(prop, case, clause, budget=15.0):
	"""greedy delta debugging on the list-valued keys of a case; keeps violations of the same clause"""
	if not isinstance(case, dict):
		return case
	end = time.time() + budget

	def fails(candidate):
		try:
			v = prop.run_case(candidate, Mon())
		except Inconclusive:
			return False
		return v is not None and v.clause == clause

	for key in prop.shrink_keys:
		if not isinstance(case.get(key), list):
			continue
		size = max(1, len(case[key]) // 2)
		while size >= 1 and time.time() < end:
			position = 0
			while position < len(case[key]) and time.time() < end:
				candidate = dict(case)
				candidate[key] = case[key][:position] + case[key][position + size:]
				if fails(candidate):
					case = candidate
				else:
					position += size
			if size == 1:
				break
			size //= 2
	return case


def load_known(prop_id):
	path = os.path.join(env.VERIF, 'known_findings.json')
	try:
		with open(path) as f:
			data = json.load(f)
	except FileNotFoundError:
		return []
	return [x for x in data.get('findings', []) if x['property'] == prop_id]


def known_finding(prop, violation):
	"""the listed finding (same clause, same failing input or call site in the message) that a violation is, if any"""
	if violation is None:
		return None
	for x in prop.findings:
		if x['clause'] == violation.clause and re.search(x['pattern'], violation.message):
			return x
	return None


def out_dir():
	path = os.path.join(env.VERIF, 'out', 'replays')
	os.makedirs(path, exist_ok=True)
	return path


def report_violation(prop, found):
	path = os.path.join(out_dir(), f'{prop.id}-{os.getpid()}.json')
	with open(path, 'w') as f:
		json.dump(dict(property=prop.id, **found), f, indent=1, default=str)
	print(f'  clause: {found["clause"]}')
	print(f'  {found["message"]}')
	print(f'  case: {json.dumps(found["case"], default=str)[:1500]}')
	print(f'VIOLATION property={prop.id} replay={path}', flush=True)


def run(prop, tier, seed):
	started = time.time()
	prop.findings = load_known(prop.id)
	count = prop.quick if tier == 'quick' else prop.thorough
	budget = 600 if tier == 'quick' else 3 * 3600
	deadline = started + budget
	total = dict(done=0, steps=0, peak=0)
	events, clauses, notes = Counter(), Counter(), Counter()
	states, distinct, lines = set(), set(), set()
	samples, violations, inconclusive, errors = [], [], [], []
	slowest = (0.0, -1)
	for r in _run_workers(prop, seed, tier, count, deadline):
		if 'error' in r:
			errors.append(r['error'])
			continue
		total['done'] += r['done']
		total['steps'] += r['steps']
		total['peak'] = max(total['peak'], r['peak'])
		events.update(r['events'])
		clauses.update(r['clauses'])
		notes.update(r['notes'])
		states |= r['states']
		distinct |= r['distinct']
		lines |= r['lines']
		samples += r['samples']
		slowest = max(slowest, r['slowest'])
		if r['violation']:
			violations.append(r['violation'])
		if r['inconclusive']:
			inconclusive.append(r['inconclusive'])
	samples = sorted(samples, key=lambda x: x['index'])[:3]

	report = dict(clauses=clauses, events=events, notes=notes)
	if not STEPS.installed:
		STEPS.install()
	if not violations:
		try:
			prop.extra(report, tier, seed)
		except Violation as v:
			if known_finding(prop, v) is None:
				violations.append(dict(index=-1, case=dict(extra=True), clause=v.clause, message=v.message, trace=[]))
		except Inconclusive as e:
			inconclusive.append(f'probe: {e}')
	missing = [c for c in prop.clauses if not clauses[c]]
	reached = Counter(f for f, _ in lines)
	coverage = dict(
		evaluations=total['done'],
		distinct_nontrivial=len(distinct),
		rule=prop.rule,
		samples=samples,
		monitor_clause_evaluations=dict(sorted(clauses.items())),
		events_observed=dict(sorted(events.items())),
		distinct_states_observed=len(states),
		library_steps_observed=total['steps'],
		most_steps_of_one_operation=dict(observed=total['peak'], limit=prop.step_limit),
		library_lines_reached=dict(sorted(reached.items())),
		slowest_case=dict(cpu_s=slowest[0], index=slowest[1]),
		notes=dict(notes),
	)
	evidence = dict(
		property=prop.id, tier=tier, seed=seed, level=prop.level, coverage=coverage,
		assumptions=list(prop.assumptions), wall_s=round(time.time() - started, 2), violations=len(violations)
	)
	os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
	with open(os.path.join(env.VERIF, 'evidence', f'{prop.id}.json'), 'w') as f:
		json.dump(evidence, f, indent=1, default=str)
	for x in prop.findings:
		print(f'KNOWN-FINDING: property={prop.id} {x["what"]}')
	if violations:
		found = min(violations, key=lambda x: x['index'])
		if found['index'] >= 0:
			found['original_case'] = found['case']
			found['case'] = shrink(prop, found['case'], found['clause'])
			mon = Mon()
			v = prop.run_case(found['case'], mon)
			if v is not None:
				found['message'] = v.message
				found['trace'] = mon.trace[-80:]
		report_violation(prop, found)
		return 1
	if errors:
		print(f'ERROR property={prop.id}: {errors[0]}')
		return 3
	if inconclusive:
		print(f'INCONCLUSIVE property={prop.id}: {inconclusive[:3]}')
		return 2
	if missing:
		print(f'INCONCLUSIVE property={prop.id}: clauses never evaluated: {missing}')
		return 2
	print(
		f'HELD property={prop.id} on {total["done"]} executions ({len(distinct)} distinct non-trivial, '
		f'{len(states)} states, {sum(clauses.values())} clause evaluations) in {evidence["wall_s"]} s'
	)
	return 0
