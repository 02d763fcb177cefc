#!/usr/bin/env python3
"""Appends the per-property section and the planted-bug table to DESIGN.head.md -> DESIGN.md"""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note, level='proof', assumptions=(), na=None, observe=()):
    P.append((id, title, statement, note, level, assumptions, na))
exec(open('tools/props_table.py').read())
o = open('DESIGN.head.md').read()
o += '## The properties\n\n'
for id, t, s, note, level, ass, na in P:
    o += f'### {id} {t}\n\n{s}\n\n' + (f'**Not applicable**: {na}\n\n' if na else f'**How it is decided** ({level}): {note}\n\n' + (('Assumptions: ' + '; '.join(ass) + '.\n\n') if ass else ''))
o += '## Planted bugs\n\nConfirmed in a scratch copy: each compiles, passes the existing tests and fails its demonstration. Caught by: p = a named obligation fails, x = the executable oracle also gives a failing input.\n\n| id | property | what it breaks | caught |\n|---|---|---|---|\n'
res = json.load(open('tools/seed_results.json')) if os.path.exists('tools/seed_results.json') else {}
for d in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{d}/meta.json'))
    o += f"| {d} | {m['property']} | {m['what_it_breaks']} | {res.get(d,'')} |\n"
o += '\n' + (open('DESIGN.tail.md').read() if os.path.exists('DESIGN.tail.md') else '')
open('DESIGN.md', 'w').write(o)
