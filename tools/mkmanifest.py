"""Writes /verif/MANIFEST.json from the property modules."""
import json
import os
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
PY = '/opt/venv/bin/python -B check.py'
TECHNIQUE = dict(
	C01='online monitor: edit histories against a reference multigraph and invariant walk after every operation',
	C02='online monitor: duplicate additions with fault injection against a reference model of content',
	C03='online monitor: relationship answers after edit histories against independent walks over recorded edges',
	C04='online monitor: ancestor and descendant answers against breadth-first search over recorded edges, step watchdog',
	C05='online monitor: distances against breadth-first search over recorded edges, step watchdog',
	C06='online monitor: traversal of instrumented objects against breadth-first search, call accounting',
	C07='online monitor: cycle answers and reported loops against strongly connected components',
	C08='online monitor: root answers against condensation of recorded edges',
	C09='offline oracle: printed tree parsed back and compared with recorded edges',
	C10='differential monitor: original and copy snapshots under later edits to either side',
	C11='online monitor: comparison answers for pairs with a planted single difference',
	C12='online monitor: filter results against recorded selection and untouched original',
	C13='online monitor: sums against model union, value functions instrumented, operands snapshotted',
	C14='round-trip monitor: representation, rebuild, append and overrides against reference model',
	C15='online monitor: generated graphs against their recipe, statistical monitor of edge frequency',
	C16='online monitor: instrumented objects, graph against recorded relatives',
	C17='offline oracle: outlines printed from a recorded tree, parse compared line by line',
	C18='offline oracle: Graphviz source parsed by own parser and by dot, compared with recorded graph',
	C19='history monitor: edits and renders with shared styles, repeat and snapshot comparison, step watchdog',
	C20='offline oracle: drawn styles parsed from source against rules of precedence and loop components',
	C21='history monitor: style mutations on original and copies, printed attributes compared',
	C22='history monitor: protected values and styles under every path of attack',
	C23='online monitor: algebraic laws of equality, hash and order over all pairs after histories',
	C24='system-call monitor (audit hook) and offline oracle over written files and SVG',
	C25='differential monitor: recorded outcomes of programs compared across processes and hash seeds',
	C26='differential monitor under controlled thread interleavings (line and bytecode switches), against each thread alone',
)
sys.path.insert(0, VERIF)
import importlib
checks = []
for id, technique in sorted(TECHNIQUE.items()):
	prop = importlib.import_module(f'rv.props.{id.lower()}').PROP
	checks.append(dict(
		property=id, quick_cmd=f'{PY} {id} --tier quick', thorough_cmd=f'{PY} {id} --tier thorough', evidence_file=f'evidence/{id}.json',
		technique='runtime monitoring: ' + technique, level=prop.level,
		level_note=(
			f'Real code observed on {prop.quick} (quick) or {prop.thorough} (thorough) seeded executions; no violation seen is no proof. Trusted: the reference model and oracle under rv/, the generators\' reach'
			+ (', ' + '; '.join(prop.assumptions) if prop.assumptions else '') + '.'
		)
	))
manifest = dict(
	version=1, setup_cmd='/opt/venv/bin/python -B -c "import sys; import rv.core"', checks=checks, not_applicable=[],
	notes='Pure Python, nothing to build: every check imports /repo/abstract from source, ignoring cached bytecode. Instrumentation is external (sys.monitoring, audit hook, instrumented arguments), so /repo has no hooks. Known findings and repaired defects: known_findings.json.'
)
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
	json.dump(manifest, f, indent=1)
	f.write('\n')
