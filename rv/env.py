"""Locates and imports the code under test from the working tree, never from stale bytecode."""
import os
import sys

REPO = os.path.realpath(os.environ.get('RV_REPO', '/repo'))
VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
PACKAGE = os.path.join(REPO, 'abstract')

sys.dont_write_bytecode = True
# cached .pyc files of the repository are ignored: always compile what is in the working tree
sys.pycache_prefix = os.path.join(VERIF, '.no-pycache-here')
if REPO not in sys.path:
	sys.path.insert(0, REPO)

import abstract  # noqa: E402

if not os.path.realpath(abstract.__file__).startswith(PACKAGE + os.sep):
	sys.stderr.write(f'abstract imported from {abstract.__file__}, not from {PACKAGE}\n')
	sys.exit(3)

from abstract import Graph, Node, Edge, get_ancestors, get_descendants  # noqa: E402
from abstract.styling.NodeStyle import NodeStyle  # noqa: E402
from abstract.styling.EdgeStyle import EdgeStyle  # noqa: E402
from abstract.parse_indentations_function import parse_indentations  # noqa: E402
from colouration import Colour, Scheme  # noqa: E402
