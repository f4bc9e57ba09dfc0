#!/usr/bin/env python3
"""Writes the per property and planted bug sections of DESIGN.md (between the marker lines) from the checks themselves.

Run with /opt/venv/bin/python.  Notes on what is not judged are kept here.
"""
import ast, json, os, sys, glob, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOT_JUDGED = {
 'B03': 'conversions whose source and target unit are the same may return the array they were given.',
 'B05': 'series made from simulator summary files.',
 'B07': 'points closer to the boundary than a small margin.',
 'B08': 'pairs which are not in general position.',
 'B09': 'coincident, collinear and cocircular points only for what remains defined; the degenerate triangulation of three points.',
 'M01': 'relationships after opening on demand (documented as partial); writing twice to one file with mode w while it is kept open (appends).',
 'M03': 'filtering by related uuid when the parts have no relationships loaded.',
 'P02': 'which of several properties of equal creation time is the newest.',
 'P03': 'row index of tables (documented as not kept).',
 'P04': 'the range when trust_min_max is given after other use; booleans and discrete cycle; zero pinned to the end of a range which does not span it; a single permeability with ratio or net to gross vertical modes; names of transmissibility units, for which the standard has none.',
 'G01': 'values of points of cells without geometry.',
 'G02': 'lookup by xy in rotated regular grids.',
 'G03': 'volumes for axes that are not orthogonal (documented as lengths multiplied) and volumes before xml is made.',
 'G04': 'layers apart by a void that no single column shows, when pillars are not to be split (neither a gap nor a split can hold it).',
 'G06': 'empty connection sets (cannot be stored); fractions on faces with crossing horizons are only bounded.',
 'G07': 'the form of multipliers for half cells of absolute vectors; NaN in multiplier arrays; simulator files have four decimals.',
 'G10': 'grids with split coordinate lines; values given to holes that are not surrounded by four known pillars (the code documents a last resort of zero); depths of nearby pillars after nullifying; nullifying all when no pillar is whole; collapsed cells are always inactive.',
 'D01': 'caches of extracted property collections (documented as shared).',
 'D04': 'pillars where faults meet, or where one fault cancels the throw of another, are only judged for coherence.',
 'S02': 'random down-sampling is judged by counts and membership only.',
 'S05': 'depth values assigned to curtain faces; the bisector only for a spanning surface which leaves exactly two parts.',
 'S06': 'grids with sides that are not plane; skin with layer gaps disables the single layer method.',
 'W02': 'passages shorter than 0.35 may be missed, and those shorter than 0.05 may lead to a neighbouring cell.',
 'W03': 'unit conversion of length columns from properties of mixed units; the WBC column (not a simulator keyword); NA in STAT or LAYER; first intervals of no length; angles when z is up; a DATE property with only blanks.',
 'W04': 'order of logs and wells; blocked wells starting inside the grid; creation of a default crs.',
 'X01': 'repeat counts are documented as not allowed and are judged refused when the extent is given and they are not last; data after the extent; lower case multiplier keywords; extents found without help only for two or more cells each way.',
 'X02': 'closed charisma sticks, textual zmap nulls, unterminated irap lists; either diagonal of a square cell is accepted.',
 'X03': 'objects of a failed task which still gives an epc; normals from the multi-process face finder (not supported). Run with loky processes and with threads.',
}


def subs(path):
    tree = ast.parse(open(path).read())
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'check':
                    kw = {k.arg: k.value.value for k in d.keywords if isinstance(k.value, ast.Constant)}
                    yield d.args[0].value, kw.get('quick'), kw.get('thorough') or (kw.get('quick') or 0) * 20, kw.get('rule')


known = {}
for l in open(os.path.join(HERE, 'known_findings.txt')):
    if l.startswith('known: '):
        d = json.loads(l[7:])
        known.setdefault(d['property'], []).append(d['what'])

out = []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    path = os.path.join(HERE, 'pbt', 'props', p['id'].lower() + '.py')
    doc = ast.get_docstring(ast.parse(open(path).read())) or ''
    doc = re.sub(r'^(%s|property-based testing): ' % p['id'], '', ' '.join(doc.split()))
    doc = doc[:1].upper() + doc[1:]
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(doc + '\n')
    for name, q, t, rule in subs(path):
        out.append(f'* `{name}`: {q} cases quick, {t} thorough' + (f'; non-trivial: {rule}.' if rule else '.'))
    if p['id'] in NOT_JUDGED:
        n = NOT_JUDGED[p['id']]
        out.append(f'* Not judged: {n}')
    for w in known.get(p['id'], []):
        out.append(f'* Known finding: {w}.')
    out.append('')
a = '\n'.join(out)

rows = ['| planted bug | property | needs | caught |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} | `./check.py {m['property']}` |")
b = '\n'.join(rows) + '\n'

f = os.path.join(HERE, 'DESIGN.md')
s = open(f).read()
for name, text in (('PER_PROPERTY', a), ('SEEDED', b)):
    s = re.sub(rf'<!-- {name} -->.*?<!-- /{name} -->', lambda _: f'<!-- {name} -->\n{text}\n<!-- /{name} -->', s.replace(f'@@{name}@@', f'<!-- {name} --><!-- /{name} -->'), flags = re.S)
open(f, 'w').write(s)
