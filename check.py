"""check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]: decide one property on the working tree of /repo."""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
	os.environ['PYTHONHASHSEED'] = '0'
	os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)

import argparse
import importlib
import json
import traceback

sys.path.insert(0, os.path.dirname(os.path.realpath(__file__)))


def main():
	parser = argparse.ArgumentParser()
	parser.add_argument('id')
	parser.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
	parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
	parser.add_argument('--replay')
	parser.add_argument('--cases', type=int)
	args = parser.parse_args()
	try:
		from rv import core
	except BaseException:
		# the package does not even import: nothing was observed, so no verdict
		traceback.print_exc()
		return 3
	prop = importlib.import_module('rv.props.' + args.id.lower()).PROP
	if args.cases:
		prop.quick = prop.thorough = args.cases
	if args.replay:
		with open(args.replay) as f:
			found = json.load(f)
		core.STEPS.install()
		mon = core.Mon()
		v = prop.run_case(found['case'], mon)
		print('\n'.join(mon.trace))
		print('REPRODUCED ' + str(v) if v is not None else 'not reproduced')
		if v is not None:
			print(f'VIOLATION property={args.id} replay={args.replay}')
		return 1 if v is not None else 0
	return core.run(prop, args.tier, args.seed)


if __name__ == '__main__':
	sys.exit(main())
