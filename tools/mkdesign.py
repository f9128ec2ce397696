#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + the per-property table generated from mkprops + tools/design_tail.md"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkprops
R = mkprops.ROOT
out = [open(os.path.join(R, 'tools', 'design_head.md')).read().rstrip() + '\n\n## Per property\n']
for p in mkprops.P:
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('%s\n' % p['statement'])
    out.append('* Decided by: %s.' % p['technique'])
    out.append('* Generated: %s.' % p['text'])
    out.append('* Bounds and assurance: %s.' % p['note'])
    out.append('* Why beyond the tests: %s' % p['why'])
    out.append('* Anchors: %s\n' % '; '.join('%s (`%s`)' % m for m in p['mech']))
t = os.path.join(R, 'tools', 'design_tail.md')
if os.path.exists(t):
    import seedtable
    out.append(open(t).read().rstrip() + '\n\n' + seedtable.table())
open(os.path.join(R, 'DESIGN.md'), 'w').write('\n'.join(out))
