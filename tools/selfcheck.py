#!/usr/bin/env python3
"""Setup: the analysis needs nothing but Python; parses the sources and loads the rules."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.program import Sources
from sa.rules import RULES
s = Sources()
print('%d modules, %d functions, rules for %d properties' % (len(s.mods), s.nfunctions, len(RULES)))
