#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.abspath(__file__))
d = os.path.join(here, '..', 'DESIGN.md')
rows = ['| planted bug | property (and the check that catches it) | shows only with |', '|---|---|---|']
for f in sorted(glob.glob(os.path.join(here, '..', 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    c = m.get('missed')
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']}{' (MISSED)' if c else ''} | {m['needs']} |")
s = open(d).read()
s = s.split('<!-- seeds -->')[0].replace('SEEDTABLE\n', '').rstrip('\n') + '\n\n<!-- seeds -->\n' + '\n'.join(rows) + '\n'
open(d, 'w').write(s)
