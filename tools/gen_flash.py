#!/usr/bin/env python3
"""Writes spec/MapFlash_*.cfg and spec/QueueFlash_*.cfg from tools/parts.py's table of instances."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from parts import MAPFLASH, QUEUEFLASH
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
for i, c in MAPFLASH.items():
    with open(os.path.join(SPEC, f"MapFlash_{i}.cfg"), "w") as f:
        f.write(f"""CONSTANTS
  NP = {c['np']}
  CAP = {c['cap']}
  HW = {c['hw']}
  KLen <- {c['k']}
  VLen <- {c['v']}
  Word = {c['word']}
  Wrong = "{c.get('wrong', '')}"
  Crashes = {c.get('crashes', 99)}
  Emit = {'TRUE' if c.get('emit', True) and not c.get('wrong') else 'FALSE'}
SPECIFICATION Spec
INVARIANT Permitted
INVARIANT TypeOK
INVARIANT Out
VIEW View
CHECK_DEADLOCK FALSE
""")
for i, c in QUEUEFLASH.items():
    with open(os.path.join(SPEC, f"QueueFlash_{i}.cfg"), "w") as f:
        f.write(f"""CONSTANTS
  NP = {c['np']}
  CAP = {c['cap']}
  HW = {c['hw']}
  Lens <- {c['l']}
  TAGS = {c.get('tags', 3)}
  Word = {c['word']}
  Masks = {{{c.get('masks', '0, 2, 255')}}}
  Over = {'TRUE' if c.get('over', True) else 'FALSE'}
  Wrong = "{c.get('wrong', '')}"
  Crashes = {c.get('crashes', 99)}
  Emit = {'FALSE' if c.get('wrong') else 'TRUE'}
SPECIFICATION Spec
INVARIANT Permitted
INVARIANT TypeOK
INVARIANT Out
VIEW View
CHECK_DEADLOCK FALSE
""")
