#!/usr/bin/env python3
"""Prints the table of planted changes for DESIGN.md (tools/design_tail.md ends with it)."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def table():
    rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
    for f in sorted(glob.glob(os.path.join(R, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'], m['property']))
    return '\n'.join(rows) + '\n'
