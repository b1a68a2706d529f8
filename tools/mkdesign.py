"""fills the generated parts of DESIGN.md: the properties, the repaired defects, the table of planted bugs"""
import importlib
import json
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
sys.path.insert(0, VERIF)
HOW = {}
with open(os.path.join(VERIF, 'tools', 'design_how.json')) as f:
	HOW = json.load(f)


def properties():
	out = []
	with open(os.path.join(VERIF, 'properties.jsonl')) as f:
		rows = [json.loads(line) for line in f]
	for d in rows:
		p = importlib.import_module('rv.props.' + d['id'].lower()).PROP
		how, why = HOW[d['id']]
		out.append(
			f"### {d['id']} {d['title']}\n\n{how}\n\n*Beyond tests:* {why}\n\n*Clauses:* {', '.join(p.clauses)}.\n\n"
			f"*Cases:* {p.quick} quick, {p.thorough} thorough. {p.rule[0].upper() + p.rule[1:]}.\n\n*Assumes:* {'; '.join(p.assumptions) or 'nothing further'}.\n"
		)
	return '\n'.join(out)


def fixed():
	with open(os.path.join(VERIF, 'known_findings.json')) as f:
		rows = json.load(f)['fixed']
	return '\n'.join('* ' + (r if isinstance(r, str) else json.dumps(r)) for r in rows)


def catches():
	path = os.path.join(VERIF, 'tools', 'catches.json')
	found = {}
	if os.path.exists(path):
		with open(path) as f:
			found = json.load(f)
	rows = ['| bug | property | needs | caught | also by |', '|---|---|---|---|---|']
	for id in sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
		with open(os.path.join(VERIF, 'seeded', id, 'meta.json')) as f:
			meta = json.load(f)
		by = found.get(id, {})
		own = by.get(meta['property'])
		others = ' '.join(k for k, v in sorted(by.items()) if v and k != meta['property'])
		rows.append(f"| {id} | {meta['property']} | {meta['needs']} | {'yes' if own else 'NO' if own is False else '?'} | {others} |")
	return '\n'.join(rows)


def main():
	path = os.path.join(VERIF, 'DESIGN.md')
	with open(path) as f:
		s = f.read()
	for name, text in (('properties', properties()), ('fixed', fixed()), ('catches', catches())):
		s = re.sub(rf'(<!-- {name}[^>]*-->\n)(?:.*?)(<!-- /{name} -->)', lambda m: m.group(1) + text + '\n' + m.group(2), s, flags=re.S)
	with open(path, 'w') as f:
		f.write(s)


if __name__ == '__main__':
	main()
