"""property-based testing: point, line, lattice and triangle files generated from known data, imported, stored, exported and imported again

Files are generated in each format from random points, lines, lattices with nulls, and triangulations, with random numbers of
decimals, layouts, headers and comments.  The objects made from them are compared with the values printed, before and after
storage, and where there is an export it is read by the check and imported again, expecting the same object.
"""
import os
import numpy as np
from hypothesis import strategies as st

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.lines as rql
import resqpy.olio.uuid as bu
import resqpy.olio.zmap_reader as zr
import resqpy.organize as rqo
import resqpy.rq_import as rqi
import resqpy.surface as rqs

from pbt.core import *
from pbt.lib.gen import *

seeds = st.integers(0, 10 ** 6)


def crs_model(ctx):
    m = ctx.new_model('m')
    other = rqc.Crs(m, title = 'other', x_offset = 123.0)
    other.create_xml()
    crs = rqc.Crs(m, title = 'the crs', x_offset = 5.0, z_inc_down = True)
    crs.create_xml()
    return m, crs.uuid, other.uuid


def texts(rng, a, places, sci = False):
    """Printed numbers and the values that they represent."""
    fmt = '%.' + str(places + 6) + 'e' if sci else '%.' + str(places) + 'f'
    t = np.array([fmt % v for v in np.ravel(a)], dtype = object).reshape(np.shape(a))
    return t, t.astype(float)


def coords(rng, n, big):
    p = rng.uniform(-1000.0, 1000.0, (n, 3))
    if big:
        p += np.array([450000.0, 6300000.0, 2000.0])
    return p


def same_points(ps, exp, what):
    arr_close(ps.full_array_ref(), exp, 0.0, what + ': points')
    eq(ps.patch_count, len(ps.patch_array_list), what + ': patches')


def numbers(path, cols):
    with open(path) as f:
        return np.array([[float(l.split()[c]) for c in cols] for l in f if l.strip()])


def split(rng, words, sep):
    return sep.join(words)


@check('points', st.fixed_dictionaries(dict(seed = seeds, n = st.sampled_from([1, 2, 5, 40]), fmt = st.sampled_from(['charisma', 'irap']), places = st.integers(1, 7), sci = st.booleans(), sep = st.sampled_from([' ', '\t', '   ']), end = st.booleans(), keep = st.booleans(), last = st.booleans(), blank = st.booleans(), big = st.booleans(), title = st.booleans())),
       quick = 150, rule = 'more than one point')
def points_file(s, ctx):
    """Point files."""
    rng = np.random.default_rng(s['seed'])
    m, crs, other = crs_model(ctx)
    t, p = texts(rng, coords(rng, s['n'], s['big']), s['places'], s['sci'])
    if s['seed'] % 5 == 0 and s['n'] > 2:  # a point in one coordinate like the end marker
        t[-1, 0], p[-1, 0] = '999.0', 999.0
        t[1], p[1] = '999.0', 999.0
    if s['n'] > 1:
        ctx.nontrivial()
    path = ctx.path('pts.' + s['fmt'])
    with open(path, 'w') as f:
        for i, w in enumerate(t):
            w = list(w)
            if s['fmt'] == 'charisma':
                w = ['INLINE :', str(25000 + i), 'XLINE :', str(i)] + w
            f.write((' ' if i % 2 else '') + s['sep'].join(w) + '\n')
            if s['blank'] and i % 3 == 0:
                f.write('\n')
        if s['fmt'] == 'irap' and s['end']:
            f.write('999.0 999.000000 999.00\n')
    kw = dict(charisma_file = path) if s['fmt'] == 'charisma' else dict(irap_file = path, remove_trailing_999 = not s['keep'])
    if s['fmt'] == 'irap' and s['end'] and s['keep']:
        p = np.concatenate((p, [[999.0] * 3]))
    ps = rqs.PointSet(m, crs_uuid = crs, title = 'the points' if s['title'] else None, **kw)
    for what in ('imported', 'stored'):
        same_points(ps, p, what)
        eq(ps.title, 'the points' if s['title'] else path, what + ': title')
        ok(bu.matching_uuids(ps.crs_uuid, crs), what + ': crs')
        if what == 'imported':
            ps.write_hdf5()
            ps.create_xml()
            m.store_epc()
            m = ctx.reopen(m)
            ps = rqs.PointSet(m, uuid = ps.uuid)
            ps.load_all_patches()
    if s['last']:
        extra = coords(rng, 3, s['big'])
        ps.add_patch(extra)
        p = np.concatenate((p, extra))
    for out in ('irap', 'charisma'):
        opath = ctx.path('out.' + out)
        with open(opath, 'w') as f:
            f.write('earlier content of file\n' * 3)
        (ps.convert_to_irap if out == 'irap' else ps.convert_to_charisma)(opath)
        arr_close(numbers(opath, (0, 1, 2) if out == 'irap' else (6, 7, 8)), p, 0.0, 'exported as ' + out)
        kw = dict(irap_file = opath, remove_trailing_999 = False) if out == 'irap' else dict(charisma_file = opath)
        same_points(rqs.PointSet(m, crs_uuid = other, **kw), p, 'exported as ' + out + ' and imported')


def same_lines(ls, exp, what, closed = True):
    eq(len(ls.polys), len(exp), what + ': number of lines')
    for i, (p, (x, c)) in enumerate(zip(ls.polys, exp)):
        arr_close(p.coordinates, x, 0.0, what + f': line {i}')
        if closed:
            eq(bool(p.isclosed), c, what + f': line {i} closed')


@check('lines', st.fixed_dictionaries(dict(seed = seeds, fmt = st.sampled_from(['charisma', 'irap']), n = st.integers(1, 5), places = st.integers(1, 6), singles = st.booleans(), closed = st.booleans(), faults = st.booleans(), blank = st.booleans(), twice = st.booleans(), sep = st.sampled_from([' ', '\t', '   ']), big = st.booleans(), crs = st.booleans(), title = st.booleans(), flat = st.booleans())),
       quick = 200, rule = 'more than one line')
def lines_file(s, ctx):
    """Line files."""
    rng = np.random.default_rng(s['seed'])
    m, crs, other = crs_model(ctx)
    if not s['crs']:
        m.crs_uuid = crs
    irap = s['fmt'] == 'irap'
    lines, out = [], []
    for _ in range(s['n']):
        n = 1 if s['singles'] and rng.random() < 0.4 else int(rng.integers(2, 8))
        t, p = texts(rng, coords(rng, n, s['big']), s['places'])
        if s['flat']:
            t[:, 2], p[:, 2] = t[0, 2], p[0, 2]
        c = bool(irap and s['closed'] and n > 2 and rng.random() < 0.6)
        out.append(list(t) + ([t[0]] if c else []))
        if n > 1:
            lines.append((p, c))
    if not lines:
        t, p = texts(rng, coords(rng, 3, s['big']), s['places'])
        out.append(list(t))
        lines.append((p, False))
    if len(lines) > 1:
        ctx.nontrivial()
    path = ctx.path('the_lines.v1.txt')
    fault, stick = 'F1', 0
    with open(path, 'w') as f:
        for i, line in enumerate(out):
            if s['blank'] and i:
                f.write('\n')
            stick += 1
            if s['faults'] and i and rng.random() < 0.5:
                fault, stick = 'F' + str(i + 1), int(rng.choice([1, stick, stick - 1]))
            for w in line:
                w = list(w)
                if not irap:
                    w = ['INLINE-', str(rng.integers(0, 9)), '2147483647'] + w + [fault, str(stick)]
                f.write(s['sep'].join(w) + '\n')
            if irap:
                f.write(('999.0 999.0 999.0', '999.000000  999.000000 999.000000')[i % 2] + '\n')
    kw = dict(crs_uuid = crs) if s['crs'] else {}
    if s['title']:
        kw['title'] = 'my lines'
    ls = rql.PolylineSet(m, **{s['fmt'] + '_file': path}, **kw)
    eq(ls.title, 'my lines' if s['title'] else 'the_lines', 'title')
    same_lines(ls, lines, 'imported')
    eq([int(n) for n in ls.count_perpol], [len(p) + c for p, c in lines], 'counts of imported points')
    eq(len(ls.coordinates), sum(len(p) + c for p, c in lines), 'number of imported points')
    ls.write_hdf5()
    ls.create_xml()
    m.store_epc()
    m = ctx.reopen(m)
    ls = rql.PolylineSet(m, uuid = ls.uuid)
    same_lines(ls, lines, 'stored')
    ok(bu.matching_uuids(ls.crs_uuid, crs), 'crs')
    ok(all(bu.matching_uuids(p.crs_uuid, crs) for p in ls.polys), 'crs of lines')
    if s['twice']:
        lines = lines + [lines[0]]
        ls = rql.PolylineSet(m, polylines = ls.polys + [ls.polys[0]], title = 'again')
        same_lines(ls, lines, 'with one line twice')
    opath = ctx.path('out.irap')
    ls.convert_to_irap(opath)
    got = numbers(opath, (0, 1, 2))
    exp = np.concatenate([np.concatenate((p, p[:1] if c else p[:0], [[999.0] * 3])) for p, c in lines])
    arr_close(got, exp, 0.0, 'exported as irap')
    same_lines(rql.PolylineSet(m, irap_file = opath, crs_uuid = crs), lines, 'exported as irap and imported')
    opath = ctx.path('out.charisma')
    ls.convert_to_charisma(opath)
    arr_close(numbers(opath, (3, 4, 5)), np.concatenate([p for p, c in lines]), 0.0, 'exported as charisma')
    # note: charisma sticks are always open
    same_lines(rql.PolylineSet(m, charisma_file = opath, crs_uuid = crs), lines, 'exported as charisma and imported', closed = False)


def write_lattice(s, rng, path, nj, ni, t, x0, y0, dx, dy, null):
    """Writes lattice, t being printed values for [j, i] with x increasing with i and y increasing with j."""
    x1, y1 = x0 + (ni - 1) * dx, y0 + (nj - 1) * dy
    per = s['per']
    with open(path, 'w') as f:
        def rows(words):
            for k in range(0, len(words), per):
                f.write(' ' + '  '.join(words[k:k + per]) + '\n')
        if s['fmt'] == 'zmap':
            if s['comments']:
                f.write('! a comment @ with, commas\n!\n')
            f.write(f'@the {"file" if s["comments"] else "data"} HEADER                     ,      GRID, {per}\n')
            f.write(f'      15, {null if s["null1"] else ""},   {"" if s["null1"] else null}    ,      4,      1\n')
            if s['comments']:
                f.write('! another comment\n')
            f.write(f'  {nj}, {ni}, {x0!r}, {x1!r}, {y0!r}, {y1!r}\n')
            f.write('  0.0, 0.0, 0.0\n@\n')
            if s['plus']:
                f.write('+ Grid data starts after this line\n')
            for i in range(ni):
                rows(list(t[::-1, i]))
        else:
            f.write(f'  -996  {nj}   {dx!r}   {dy!r}\n')
            f.write(f'  {x0!r}  {x1!r} {y0!r} {y1!r}\n')
            f.write(f'  {ni}   {float(s["rot"])!r}  {x0!r}  {y0!r}\n')
            f.write('     0     0     0     0     0     0     0\n')
            if s['plus']:
                for j in range(nj):
                    rows(list(t[j]))
            else:
                rows(list(t.flatten()))


def lattice(s, rng, path):
    """Writes a file and returns expected x, y, z arrays."""
    nj, ni = s['nj'], s['ni']
    z = rng.uniform(-100.0, 100.0, (nj, ni)) + (2000.0 if s['big'] else 0.0)
    t, z = texts(rng, z, s['places'], s['sci'])
    null = '9999900.0000'
    if s['fmt'] == 'zmap':
        null = ['-99999.0000', '1E+30', '0.1E31', '-999.25', '9999900.0'][rng.integers(5)]
    x0, y0 = (450000.0, 6300000.0) if s['big'] else (0.0, -50.5)
    dx, dy = [(50.0, 25.0), (12.5, 12.5), (1.0, 100.0)][rng.integers(3)]
    mask = np.zeros((nj, ni), dtype = bool)
    if s['nulls'] == 'some':
        mask = rng.random((nj, ni)) < 0.25
    elif s['nulls'] == 'edges':
        mask[0] = mask[:, -1] = True
    elif s['nulls'] == 'one':
        mask[rng.integers(nj), rng.integers(ni)] = True
    t[mask] = null if s['places'] % 2 else '%.3f' % float(null) if abs(float(null)) < 1e9 else '%.4e' % float(null)
    z[mask] = np.nan
    write_lattice(s, rng, path, nj, ni, t, x0, y0, dx, dy, null)
    x, y = np.meshgrid(np.arange(ni) * dx, np.arange(nj) * dy)
    r = np.radians(float(s['rot']) if s['fmt'] != 'zmap' else 0.0)
    x, y = x * np.cos(r) - y * np.sin(r) + x0, x * np.sin(r) + y * np.cos(r) + y0
    if s['fmt'] == 'zmap':
        x, y, z = x[::-1], y[::-1], z[::-1]
    return np.stack((x, y, z), axis = -1)


def key(p):
    return tuple(round(float(v), 4) for v in p)


def tri_set(t, p):
    return sorted(tuple(sorted(key(p[n]) for n in tri)) for tri in t)


def check_surface(su, xyz, quad, what):
    t, p = su.triangles_and_points()
    nan = np.isnan(xyz[..., 2])
    nj, ni = nan.shape
    lattice_points = [key(v) for v in xyz.reshape(-1, 3)[~nan.flatten()]]
    got_points = [key(v) for v in p]
    quad = quad and not np.any(nan)
    if quad:
        centres = 0.25 * (xyz[:-1, :-1] + xyz[1:, :-1] + xyz[:-1, 1:] + xyz[1:, 1:]).reshape(-1, 3)
        eq(len(p), nj * ni + len(centres), what + ': number of points')
        arr_close(p[:nj * ni], xyz.reshape(-1, 3), 1.0e-6, what + ': points')
        arr_close(p[nj * ni:], centres, 1.0e-6, what + ': centre points')
    else:
        eq(sorted(got_points), sorted(lattice_points), what + ': points')
    ok(t.size == 0 or (np.min(t) >= 0 and np.max(t) < len(p)), what + ': index range')
    got = tri_set(t, p)
    todo = list(got)
    for j in range(nj - 1):
        for i in range(ni - 1):
            n = [xyz[j, i], xyz[j, i + 1], xyz[j + 1, i + 1], xyz[j + 1, i]]  # in circular order
            if quad:
                c = p[nj * ni + j * (ni - 1) + i]
                for k in range(4):
                    tr = tuple(sorted((key(c), key(n[k]), key(n[(k + 1) % 4]))))
                    ok(tr in todo, what + f': triangle {k} of square {j, i} missing')
                    todo.remove(tr)
                continue
            good = [k for k in range(4) if not np.isnan(n[k][2])]
            if len(good) < 3:
                continue
            if len(good) == 3:
                options = [[tuple(sorted(key(n[k]) for k in good))]]
            else:
                options = [[tuple(sorted(key(n[k]) for k in tr)) for tr in o] for o in (((0, 1, 2), (0, 2, 3)), ((0, 1, 3), (1, 2, 3)))]
            for o in options:
                if all(tr in todo for tr in o):
                    for tr in o:
                        todo.remove(tr)
                    break
            else:
                fail(what + f': square {j, i} with {len(good)} values is not covered')
    eq(todo, [], what + ': extra triangles')


lattices = dict(seed = seeds, fmt = st.sampled_from(['zmap', 'rms', 'roxar']), nj = st.integers(2, 6), ni = st.integers(2, 7), per = st.integers(1, 8), places = st.integers(1, 6), sci = st.booleans(), nulls = st.sampled_from(['some', 'none', 'edges', 'one']), rot = st.sampled_from([0, 0, 30, -12.5, 90]), comments = st.booleans(), null1 = st.booleans(), plus = st.booleans(), big = st.booleans())


@check('lattice', st.fixed_dictionaries(dict(lattices, flavour = st.sampled_from(['ref&z', 'reg&z', 'explicit', 'regular']), quad = st.booleans(), short = st.booleans(), role = st.sampled_from(['pick', 'map']))),
       quick = 250, rule = 'number of rows differs from number of columns, and some nulls')
def lattice_file(s, ctx):
    """Lattice files read as arrays, meshes and surfaces."""
    rng = np.random.default_rng(s['seed'])
    m, crs, other = crs_model(ctx)
    path = ctx.path('lattice.txt')
    xyz = lattice(s, rng, path)
    if s['nj'] != s['ni'] and s['nulls'] != 'none':
        ctx.nontrivial()
    x, y, z = zr.read_mesh(path, format = s['fmt'])
    for got, c, n in ((x, 0, 'x'), (y, 1, 'y'), (z, 2, 'z')):
        arr_close(got, xyz[..., c], 0.0 if n == 'z' else 1.0e-6, n + ' of lattice')
    x, y, z = zr.read_zmapplusgrid(path) if s['fmt'] == 'zmap' else zr.read_rms_text_mesh(path) if s['fmt'] == 'rms' else zr.read_roxar_mesh(path)
    arr_close(z, xyz[..., 2], 0.0, 'z')
    mesh = rqs.Mesh(m, mesh_file = path, mesh_format = s['fmt'], mesh_flavour = s['flavour'], crs_uuid = crs, surface_role = s['role'], title = 'mesh')
    exp = xyz.copy()
    if s['flavour'] == 'regular':
        exp[..., 2] = 0.0
    for what in ('imported', 'stored'):
        eq((mesh.nj, mesh.ni, mesh.flavour, mesh.surface_role), (s['nj'], s['ni'], s['flavour'], s['role']), what + ': mesh')
        arr_close(mesh.full_array_ref(), exp, 1.0e-6, what + ': points of mesh')
        arr_close(mesh.full_array_ref()[..., 2], exp[..., 2], 0.0, what + ': values of mesh')
        ok(bu.matching_uuids(mesh.crs_uuid, crs), what + ': crs of mesh')
        check_surface(mesh.surface(quad_triangles = s['quad']), exp, s['quad'], what + ': surface of mesh')
        if what == 'imported':
            mesh.write_hdf5()
            mesh.create_xml()
            m.store_epc()
            m = ctx.reopen(m)
            mesh = rqs.Mesh(m, uuid = mesh.uuid)
    su = rqs.Surface(m, mesh_file = path, mesh_format = s['fmt'], quad_triangles = s['quad'], crs_uuid = crs, surface_role = s['role'], title = 'surf')
    check_surface(su, xyz, s['quad'], 'surface')
    if len(su.triangles_and_points()[0]):
        su.write_hdf5()
        su.create_xml()
        m.store_epc()
        m = ctx.reopen(m)
        su2 = rqs.Surface(m, uuid = su.uuid)
        check_surface(su2, xyz, s['quad'], 'stored surface')
        eq(su2.surface_role, s['role'], 'role of stored surface')
        ok(bu.matching_uuids(su2.crs_uuid, crs), 'crs of surface')
    su = rqs.Surface(m, crs_uuid = crs)
    (su.set_from_zmap_file if s['fmt'] == 'zmap' else su.set_from_rms_file if s['fmt'] == 'rms' else su.set_from_roxar_file)(path, s['quad'])
    check_surface(su, xyz, s['quad'], 'surface set from file')
    if s['short']:
        with open(path) as f:
            words = f.read().rstrip().rsplit(None, 1)
        with open(path, 'w') as f:
            f.write(words[0] + '\n')
        with refuses('file with missing values', AssertionError, ValueError, IndexError):
            zr.read_mesh(path, format = s['fmt'])
        with open(path, 'w') as f:
            f.write(' '.join(words) + ' 12.5\n')
        with refuses('file with too many values', AssertionError, ValueError, IndexError):
            zr.read_mesh(path, format = s['fmt'])


def tsurf(s, rng, path):
    """Writes a tsurf file and returns expected points and triangles."""
    np_, nt = s['np'], s['nt']
    tx, p = texts(rng, coords(rng, np_, s['big']), s['places'], s['sci'])
    t = np.array([rng.permutation(np_)[:3] for _ in range(nt)])
    with open(path, 'w') as f:
        f.write('GOCAD TSurf 1.0\nHEADER {\nname: a surface\n}\n')
        if s['head']:
            f.write('GOCAD_ORIGINAL_COORDINATE_SYSTEM\nNAME Default\nAXIS_NAME "X" "Y" "Z"\nZPOSITIVE Depth\nEND_ORIGINAL_COORDINATE_SYSTEM\nTFACE\n')
        tail = {'': '', 'CNXYZ': ' CNXYZ', 'values': ' 1.5 2.5'}[s['tail']]
        parts = 2 if s['parts'] and np_ > 5 and nt > 1 else 1
        cut = np_ // 2 if parts == 2 else np_
        tcut = nt // 2 if parts == 2 else nt
        if parts == 2:  # triangles refer to vertices of their own part
            t = np.array([rng.permutation(cut)[:3] if i < tcut else cut + rng.permutation(np_ - cut)[:3] for i in range(nt)])
        for a, b, ta, tb in ((0, cut, 0, tcut), (cut, np_, tcut, nt)):
            if a == b:
                continue
            if a:
                f.write('TFACE\n')
            for i in range(a, b):
                f.write(('PVRTX' if s['tail'] == 'values' else 'VRTX') + s['sep'] + s['sep'].join([str(i + s['first'])] + list(tx[i])) + tail + '\n')
            for i in range(ta, tb):
                f.write('TRGL' + s['sep'] + s['sep'].join(str(v + s['first']) for v in t[i]) + '\n')
        f.write(f'BSTONE {s["first"]}\nEND\n')
    return t, p


tsurfs = dict(seed = seeds, np = st.integers(3, 20), nt = st.integers(1, 20), first = st.sampled_from([1, 0, 7]), places = st.integers(1, 7), sci = st.booleans(), head = st.booleans(), tail = st.sampled_from(['', 'CNXYZ', 'values']), sep = st.sampled_from([' ', '  ', '\t']), parts = st.booleans(), big = st.booleans())


@check('tsurf', st.fixed_dictionaries(dict(tsurfs, bad = st.sampled_from(['no', 'order', 'range']))),
       quick = 150, rule = 'more than one triangle')
def tsurf_file(s, ctx):
    """Triangulated surface files."""
    rng = np.random.default_rng(s['seed'])
    m, crs, other = crs_model(ctx)
    path = ctx.path('s.ts')
    t, p = tsurf(s, rng, path)
    if len(t) > 1:
        ctx.nontrivial()
    su = rqs.Surface(m, tsurf_file = path, crs_uuid = crs, title = 'tsurf')
    for what in ('imported', 'stored'):
        gt, gp = su.triangles_and_points()
        arr_close(gp, p, 0.0, what + ': points')
        arr_eq(gt, t, what + ': triangles')
        ok(bu.matching_uuids(su.crs_uuid, crs), what + ': crs')
        eq(su.title, 'tsurf', what + ': title')
        if what == 'imported':
            su.write_hdf5()
            su.create_xml()
            m.store_epc()
            m = ctx.reopen(m)
            su = rqs.Surface(m, uuid = su.uuid)
    if s['bad'] != 'no':
        with open(path) as f:
            lines = f.read().split('\n')
        v = [i for i, l in enumerate(lines) if 'VRTX' in l]
        if s['bad'] == 'order':
            lines[v[0]], lines[v[1]] = lines[v[1]], lines[v[0]]
        else:
            i = [i for i, l in enumerate(lines) if l.startswith('TRGL')][0]
            w = lines[i].split()
            w[2] = str(s['first'] + s['np']) if s['seed'] % 2 else str(s['first'] - 1)
            lines[i] = ' '.join(w)
        with open(path, 'w') as f:
            f.write('\n'.join(lines))
        with refuses('surface file with vertices out of order or range', AssertionError, ValueError):
            rqs.Surface(m, tsurf_file = path, crs_uuid = crs)


@check('add', st.fixed_dictionaries(dict(fmt = st.sampled_from(['GOCAD-Tsurf', 'zmap', 'rms', 'roxar']), cls = st.sampled_from(['mesh', 'surface', 'Grid2dRepresentation', 'TriangulatedSetRepresentation']), n = st.integers(1, 3), quad = st.booleans(), role = st.sampled_from(['pick', 'map']), interps = st.booleans(), crs = st.booleans(), seed = seeds, files = st.lists(st.fixed_dictionaries(lattices), min_size = 3, max_size = 3), ts = st.lists(st.fixed_dictionaries(tsurfs), min_size = 3, max_size = 3))),
       quick = 60, rule = 'more than one file')
def add_files(s, ctx):
    """Surface files added to a stored model."""
    rng = np.random.default_rng(s['seed'])
    m, crs, other = crs_model(ctx)
    if not s['crs']:
        m.crs_uuid = crs
    before = sorted(str(u) for u in m.uuids())
    m.store_epc()
    epc = m.epc_file
    if not s['crs']:  # default crs for a stored model is its first
        crs = rq.Model(epc).crs_uuid
    ts = s['fmt'] == 'GOCAD-Tsurf'
    paths, exps = [], []
    for i in range(s['n']):
        path = ctx.path(['top_sand.dat', 'base.v2.dat', 'mid'][i])
        paths.append(path)
        exps.append(tsurf(s['ts'][i], rng, path) if ts else lattice(dict(s['files'][i], fmt = s['fmt'], nulls = s['files'][i]['nulls'] if s['files'][i]['nulls'] in ('none', 'one') and s['files'][i]['nj'] > 2 else 'none'), rng, path))
    if s['n'] > 1:
        ctx.nontrivial()
    mesh = s['cls'] in ('mesh', 'Grid2dRepresentation')
    got = rqi.add_surfaces(epc, crs_uuid = crs if s['crs'] else None, surface_file_format = s['fmt'], rq_class = s['cls'], surface_role = s['role'], quad_triangles = s['quad'], surface_file_list = paths, make_horizon_interpretations_and_features = s['interps'])
    for what, m2 in (('returned', got), ('stored', ctx.open_model(epc))):
        typ = 'obj_Grid2dRepresentation' if mesh else 'obj_TriangulatedSetRepresentation'
        n = 0 if mesh and ts else s['n']
        eq(len(m2.uuids(obj_type = typ)), n, what + ': number of objects')
        for t in ('HorizonInterpretation', 'GeneticBoundaryFeature'):
            eq(len(m2.uuids(obj_type = t)), n if s['interps'] else 0, what + ': number of ' + t)
        ok(set(before) <= set(str(u) for u in m2.uuids()), what + ': earlier objects')
        if n == 0:
            continue
        for path, exp, title in zip(paths, exps, ('top_sand', 'base.v2', 'mid')):
            us = m2.uuids(obj_type = typ, title = title)
            eq(len(us), 1, what + ': objects with title')
            obj = rqs.Mesh(m2, uuid = us[0]) if mesh else rqs.Surface(m2, uuid = us[0])
            eq(obj.surface_role, s['role'], what + ': role')
            eq(obj.extra_metadata.get('source'), path, what + ': source')
            ok(bu.matching_uuids(obj.crs_uuid, crs), what + ': crs')
            if mesh:
                arr_close(obj.full_array_ref(), exp, 1.0e-6, what + ': mesh')
            elif ts:
                gt, gp = obj.triangles_and_points()
                arr_eq(gt, exp[0], what + ': triangles')
                arr_close(gp, exp[1], 0.0, what + ': points')
            else:
                check_surface(obj, exp, s['quad'], what + ': surface')
            if s['interps']:
                iu = m2.uuid(obj_type = 'HorizonInterpretation', related_uuid = us[0])
                ok(iu is not None, what + ': interpretation')
                interp = rqo.HorizonInterpretation(m2, uuid = iu)
                eq(interp.title, title, what + ': interpretation title')
                eq(interp.genetic_boundary_feature.feature_name, title, what + ': feature name')
                eq((interp.domain, interp.genetic_boundary_feature.kind), ('depth', 'horizon'), what + ': interpretation')
