"""mutant_run.py CASES CHECK...: runs some cases of each check in this process until one reports a violation (for tools/mutate.py)"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
try:
	from rv import core
except BaseException as e:
	print('CAUGHT import', type(e).__name__)
	sys.exit()

core.STEPS.install()
cases = int(sys.argv[1])
problems = []
props = [importlib.import_module('rv.props.' + c.lower()).PROP for c in sys.argv[2:]]
for fraction in (0.1, 1):
	for prop in props:
		prop.findings = []
		prop.case_timeout = max(60, prop.case_timeout)
		share = max(1, int(prop.quick / 2500 * cases)) if prop.quick < 2500 else cases
		for i in range(max(2, int(share * fraction))):
			try:
				v = prop.run_case(prop.case_for(1, i, 'quick'), core.Mon())
			except core.Inconclusive:
				problems.append(prop.id)
				break
			if v is not None:
				print('CAUGHT', prop.id, v.clause, i, str(v.message)[:80].replace('\n', ' '))
				sys.exit()
print('SURVIVED', *problems)
