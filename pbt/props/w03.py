"""property-based testing: blocked well tables and well files against the generated rows, with intervals and columns worked out here

Random wellspec texts (many wells and dates, comments, layout, null entries) are read with each option and compared with the
generated rows.  Random cell lists, tables, wellspec and cellio files are made into blocked wells whose intervals, faces,
depths and properties are compared with those worked out from the cell geometry, stored, reread, tabulated and written again.
Tables of random wells with random limits are compared with the rows and column values calculated directly.
"""
import math
import os
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.grid as grr
import resqpy.property as rqp
import resqpy.time_series as rqts
import resqpy.well as rqw
import resqpy.well.well_utils as rqwu
import resqpy.olio.uuid as bu
import resqpy.olio.wellspec_keywords as wsk

from pbt.core import *
from pbt.lib.gen import *

seeds = st.integers(0, 10 ** 6)

INTS = ['IRELPM', 'ZONE', 'IPTN', 'LAYER']
FLOATS = ['RADW', 'KHMULT', 'ANGLA', 'ANGLV', 'LENGTH', 'KH', 'SKIN', 'PPERF', 'ANGLE', 'RADB', 'WI', 'K', 'DEPTH', 'X', 'Y', 'FM', 'MD', 'TEMP', 'DZ']
STRS = ['GRID', 'PARENT', 'SECT', 'GROUP', 'ND']
PLAIN = ['!ordinary note', '! TIME 01/01/1999', '! WELLSPEC w0', 'C a note', 'c TIME 03/02/2001', '!', '  ! indented']


def text_rows(rng, cols, n, null_cols):
    """List of rows of (text, value)."""
    rows = []
    for _ in range(n):
        row = []
        for c in cols:
            if c in ('IW', 'JW', 'L'):
                v = int(rng.integers(1, 4))
                row.append((str(v), v))
            elif c == 'STAT':
                v = bool(rng.integers(2))
                t = ('ON' if v else 'OFF')
                row.append((t.lower() if rng.random() < 0.2 else t, 1 if v else 0))
            elif c != 'LAYER' and (c in null_cols or rng.random() < 0.15):
                row.append(('NA', None))
            elif c in ('DEPTH', 'MD') and rng.random() < 0.1:
                row.append(('#', '#'))
            elif c in INTS:
                v = int(rng.integers(0, 50))
                row.append((str(v), v))
            elif c in STRS:
                v = str(rng.choice(['ROOT', 'Fine_1', 'abc', 'none', 'W-2']))
                row.append((v, v))
            else:
                v = round(float(rng.uniform(-100.0, 100.0)), int(rng.integers(0, 5)))
                t = str(v) if rng.random() < 0.7 else f'{v:.6e}'
                row.append((t, float(t)))
        rows.append(row)
    return rows


def noise(rng, blank, p = 0.3):
    out = []
    while rng.random() < p:
        out.append('' if blank and rng.random() < 0.5 else str(rng.choice(PLAIN)))
    return out


def make_text(s):
    """Returns lines, and list of [well, date, columns, rows] in order in the file."""
    rng = np.random.default_rng(s['seed'])
    lines, sections = ['METRIC'] if s['units'] else [], []
    date = None
    day = int(rng.integers(1, 20))
    month, year = int(rng.integers(1, 12)), int(rng.integers(1990, 2030))
    for kind in s['parts']:
        lines += noise(rng, True)
        if kind < 0:
            day += int(rng.integers(0, 3))
            if rng.random() < 0.4:
                month += 1
                day = int(rng.integers(1, 20))
            if rng.random() < 0.3 or month > 12:
                year += 1
                month = int(rng.integers(1, 13))
            day = min(day, 28)
            date = f'{year:04d}-{month:02d}-{day:02d}'
            text = f'{month:02d}/{day:02d}/{year:04d}' if s['usa'] else f'{day:02d}/{month:02d}/{year:04d}'
            if rng.random() < 0.2:
                text += '(12:30:00)'
            lines.append(str(rng.choice(['TIME', 'Time', '  TIME'])) + ' ' + text + str(rng.choice(['', ' ! when'])))
            if rng.random() < 0.3:  # something else, between
                lines += ['CONSTRAINTS', f'well{kind} QOSMAX 100', 'ENDCONSTRAINTS']
            continue
        name = ['PROD_1', 'inj', 'P2'][kind]
        extra = [c for c in INTS + FLOATS + STRS + ['STAT'] if rng.random() < 0.15]
        rng.shuffle(extra)
        cols = ['IW', 'JW', 'L'] + extra
        if rng.random() < 0.3:
            rng.shuffle(cols)
        null_cols = [c for c in extra if rng.random() < 0.2]
        rows = text_rows(rng, cols, int(rng.integers(1, 6)), null_cols)
        lines.append(str(rng.choice(['WELLSPEC', 'wellspec', ' WELLSPEC'])) + ' ' + name + str(rng.choice(['', ' ! a well'])))
        lines += noise(rng, True)
        sep = str(rng.choice([' ', '\t', '   ']))
        head = sep.join(cols)
        lines.append((head.lower() if rng.random() < 0.2 else head) + str(rng.choice(['', ' ! columns', ' !'])))
        for row in rows:
            lines += noise(rng, True, 0.15)
            lines.append(str(rng.choice(['', '  '])) + sep.join([t for t, _ in row]) + str(rng.choice(['', ' ! perf 1', '!x'])))
        sections.append([name, date, cols, rows])
    lines += noise(rng, True)
    return lines, sections


def wanted(section, select, keep_dup, keep_null):
    """Columns and rows of values (None for null) for one section, or None."""
    name, date, cols, rows = section
    if select:
        use = list(select)
        out = []
        for row in rows:
            have = {c: v for c, (_, v) in zip(cols, row)}
            out.append([have.get(c, 'ROOT' if c == 'GRID' else None) for c in use])
    else:
        use, out = list(cols), [[v for _, v in row] for row in rows]
    if not any(v is not None for row in out for v in row):
        return None
    if not keep_null:
        keep = [i for i in range(len(use)) if any(row[i] is not None for row in out)]
        use, out = [use[i] for i in keep], [[row[i] for i in keep] for row in out]
    if not keep_dup and all(c in use for c in ('IW', 'JW', 'L')):
        key = [use.index(c) for c in ('IW', 'JW', 'L', 'GRID') if c in use]
        seen, kept = set(), []
        for row in reversed(out):
            k = tuple(row[i] for i in key)
            if k not in seen:
                seen.add(k)
                kept.append(row)
        out = kept[::-1]
    return use, out


def same_value(got, want, msg):
    if want is None:
        ok(pd.isnull(got), f'{msg}: {got!r} not null')
    elif isinstance(want, str):
        ok(isinstance(got, str) and got == want, f'{msg}: {got!r} not {want!r}')
    else:
        ok(not isinstance(got, str) and not pd.isnull(got) and abs(float(got) - want) <= 1e-9 * max(1.0, abs(want)), f'{msg}: {got!r} not {want!r}')


def same_df(df, use, rows, msg):
    eq([str(c) for c in df.columns], list(use), f'columns {msg}')
    eq(len(df), len(rows), f'number of rows {msg}')
    for i, row in enumerate(rows):
        for c, v in zip(use, row):
            same_value(df.iloc[i][c], v, f'row {i} column {c} {msg}')


def select_of(s, sections):
    if not s['select']:
        return []
    rng = np.random.default_rng(s['seed'] + 7)
    allc = ['IW', 'JW', 'L'] + INTS[:3] + FLOATS + STRS
    p = 0.7 if s['select'] == 'many' else 0.2
    out = [c for c in allc if (rng.random() < (0.8 if c in ('IW', 'JW', 'L') else p * 0.4))]
    rng.shuffle(out)
    return [str(c) for c in out] or ['L']


@check('wellspec', st.fixed_dictionaries(dict(seed = seeds, parts = st.lists(st.integers(-2, 2), min_size = 2, max_size = 9), units = st.booleans(), usa = st.booleans(), select = st.sampled_from(['many', 'few', '']), dup = st.booleans(), null = st.booleans(), eof = st.sampled_from(['', '\n']))),
       quick = 300, thorough = 3000, rule = 'more than one well and date')
def wellspec(s, ctx):
    lines, sections = make_text(s)
    path = ctx.path('wells.dat')
    with open(path, 'w') as fp:
        fp.write('\n'.join(lines) + s['eof'])
    select = select_of(s, sections)
    wells = []
    for name, _, _, _ in sections:
        if name not in wells:
            wells.append(name)
    dates = sorted(set(d for _, d, _, _ in sections if d is not None))
    if len(wells) > 1 and len(dates) > 1:
        ctx.nontrivial()
    got, got_dates = wsk.load_wellspecs(path, column_list = None, usa_date_format = s['usa'], return_dates_list = True)
    eq(list(got.keys()), wells, 'well names')
    ok(all(v is None for v in got.values()), 'table given when none asked for')
    eq(list(got_dates), dates, 'dates')
    pointers = wsk.get_well_pointers(path, usa_date_format = s['usa'])
    eq({w: [d for _, d in p] for w, p in pointers.items()}, {w: [d for n, d, _, _ in sections if n == w] for w in wells}, 'dates of each well')
    for last in (True, False):
        got, got_dates = wsk.load_wellspecs(path, column_list = select, keep_duplicate_cells = s['dup'], keep_null_columns = s['null'], last_data_only = last, usa_date_format = s['usa'], return_dates_list = True)
        eq(list(got_dates), dates, 'dates with tables')
        for w in wells:
            mine = [x for x in sections if x[0] == w]
            if last:
                want = wanted(mine[-1], select, s['dup'], s['null'])
                ok((w in got) == (want is not None), f'well {w} {"missing" if want else "not expected"}')
                if want is None:
                    continue
                same_df(got[w], want[0], want[1], f'last for {w}')
            else:
                use, out = [], []
                for x in mine:
                    want = wanted(x, select, s['dup'], True)
                    if want is None:
                        continue
                    for c in want[0] + ['DATE']:
                        if c not in use:
                            use.append(c)
                    for row in want[1]:
                        d = dict(zip(want[0], row))
                        d['DATE'] = x[1]
                        out.append(d)
                ok((w in got) == (len(out) > 0), f'well {w} wrongly in or out of all dates')
                if not out:
                    continue
                if not s['null']:
                    use = [c for c in use if any(d.get(c) is not None for d in out)]
                df = got[w]
                eq(sorted(str(c) for c in df.columns), sorted(use), f'columns of all dates for {w}')
                eq(len(df), len(out), f'rows of all dates for {w}')
                for i, d in enumerate(out):
                    for c in use:
                        same_value(df.iloc[i][c], d.get(c), f'row {i} column {c} of all dates for {w}')
            one = wsk.load_wellspecs(path, well = w, column_list = select, keep_duplicate_cells = s['dup'], keep_null_columns = s['null'], last_data_only = last, usa_date_format = s['usa'])
            eq(list(one.keys()), [w], 'one well')
            ok(one[w].equals(got[w]), f'table for one well {w}')
        eq(sorted(got.keys()), sorted(w for w in got if w in wells), 'wells with tables')
    for w in wells:
        ok(raises(lambda: wsk.load_wellspecs(path, well = w + 'X')), 'unknown well accepted') if w + 'X' not in wells else None


# --------------------------------------------------------------------------------------------------------------- blocked wells

GRID = st.fixed_dictionaries(dict(nk = st.integers(2, 5), nj = st.integers(2, 4), ni = st.integers(2, 4), d = st.lists(st.sampled_from([40.0, 100.0, 7.5]), min_size = 3, max_size = 3), up = st.booleans(), xy = st.sampled_from(['ft', 'm', 'm']), z = st.sampled_from(['ft', 'm', 'm']), ky = st.sampled_from([1, 1, -1]), tilt = st.sampled_from([0.0, 0.0, 0.3]), seed = seeds))

FT = {'m': 1.0, 'ft': 0.3048}


def length_to(v, a, b):
    return v * FT[a] / FT[b]


def make_grid(m, g, title = 'Main Grid'):
    """Regular grid (cells parallelepipeds if tilted); returns grid and function giving corner points of cell."""
    if m.crs_uuid is None:
        crs = rqc.Crs(m, xy_units = g['xy'], z_units = g['z'], z_inc_down = not g['up'])
        crs.create_xml()
    dz, dy, dx = g['d'][0] * 0.2, g['d'][1] * g['ky'], g['d'][2]
    sign = -1.0 if g['up'] else 1.0
    dk = np.array([[0.0, 0.0, dz * sign], [0.0, dy, g['tilt'] * dz], [dx, 0.0, -0.5 * g['tilt'] * dz]])
    origin = np.array([1000.0, 2000.0, 1500.0 * sign])
    grid = grr.RegularGrid(m, extent_kji = (g['nk'], g['nj'], g['ni']), dxyz_dkji = dk, origin = tuple(origin), crs_uuid = m.crs_uuid, title = title, set_points_cached = True, as_irregular_grid = True)
    grid.write_hdf5()
    grid.create_xml(write_geometry = True, write_active = False)

    def corners(kji):
        out = np.empty((2, 2, 2, 3))
        for a in range(2):
            for b in range(2):
                for c in range(2):
                    out[a, b, c] = origin + (np.array(kji) + (a, b, c)) @ dk
        return out

    return grid, corners


def face_mid(cp, axis, pol):
    return np.take(cp, pol, axis = axis).reshape((-1, 3)).mean(axis = 0)


def cells_of(s, g):
    """Distinct cells: a wandering list, some not next to each other."""
    rng = np.random.default_rng(s['seed'])
    ext = np.array([g['nk'], g['nj'], g['ni']])
    at = rng.integers(0, ext)
    if s['style'] == 'down':
        at[0] = 0
    out = [tuple(int(v) for v in at)]
    for _ in range(s['n'] - 1):
        for _ in range(20):
            if s['style'] == 'jumps':
                to = rng.integers(0, ext)
            else:
                to = np.array(out[-1])
                ax = 0 if s['style'] == 'down' else int(rng.integers(3))
                to[ax] += 1 if s['style'] == 'down' or rng.random() < 0.7 else -1
            if np.all(to >= 0) and np.all(to < ext) and tuple(int(v) for v in to) not in out:
                out.append(tuple(int(v) for v in to))
                break
    return out


def move_face(a, b):
    """Axis and direction (+1, -1) of the move from a to b."""
    d = np.array(b) - np.array(a)
    if d[1] == 0 and d[2] == 0:
        return 0, 1 if d[0] >= 0 else -1
    ax = 1 if abs(d[1]) > abs(d[2]) else 2
    return ax, 1 if d[ax] >= 0 else -1


def faces_by_moves(cells):
    out = []
    for i, c in enumerate(cells):
        if i == 0:
            entry = (0, 0)
        else:
            ax, dr = move_face(cells[i - 1], c)
            entry = (ax, 0 if dr > 0 else 1)
        if i == len(cells) - 1:
            leave = (entry[0], 1 - entry[1])
        else:
            ax, dr = move_face(c, cells[i + 1])
            leave = (ax, 1 if dr > 0 else 0)
        out.append((entry, leave))
    return out


def expected_intervals(pairs, g, uom, first_zero = True):
    """From list of entry, exit points: node mds, blocked flags, and node points."""
    scale = np.array([length_to(1.0, g['xy'], uom), length_to(1.0, g['xy'], uom), length_to(1.0, g['z'], uom)])
    start = np.array(pairs[0][0])
    if first_zero:
        start = np.array([start[0], start[1], 0.0])
    mds, points, flags = [0.0 if first_zero else abs(float(start[2]))], [start], []
    for a, b in pairs:
        if np.any(np.abs(np.array(a) - points[-1]) > 0.05):
            mds.append(mds[-1] + float(np.linalg.norm((a - points[-1]) * scale)))
            points.append(np.array(a))
            flags.append(-1)
        mds.append(mds[-1] + float(np.linalg.norm((b - points[-1]) * scale)))
        points.append(np.array(b))
        flags.append(0)
    return np.array(mds), np.array(points), flags


def same_well(bw, grid, cells, faces, exp, msg):
    mds, points, flags = exp
    eq(bw.cell_count, len(cells), f'cell count {msg}')
    eq(bw.node_count, len(mds), f'node count {msg}')
    arr_close(bw.node_mds, mds, 1e-6, f'measured depths {msg}', 1e-9)
    arr_eq(bw.grid_indices, np.array(flags), f'blocked intervals {msg}')
    nat = [(c[0] * grid.nj + c[1]) * grid.ni + c[2] for c in cells]
    arr_eq(bw.cell_indices, np.array(nat), f'cells {msg}')
    if faces is not None:
        arr_eq(bw.face_pair_indices, np.array(faces), f'faces {msg}')
    eq([str(x.uuid) for x in bw.grid_list], [str(grid.uuid)], f'grids {msg}')
    for md, p in zip(bw.node_mds, points):
        arr_close(bw.trajectory.xyz_for_md(md), p, 1e-4, f'trajectory at measured depth {md} {msg}', 1e-9)


EXTRA = ['SKIN', 'RADW', 'STAT', 'KH', 'PPERF', 'WI', 'RADB', 'LENGTH', 'MD', 'DEPTH', 'X', 'Y']


def extra_table(rng, cols, n):
    out = {}
    for c in cols:
        if c == 'STAT':
            out[c] = [str(x) for x in rng.choice(['ON', 'OFF'], n)]
        elif c == 'PPERF':
            out[c] = [round(float(x), 3) for x in rng.uniform(0.05, 1.0, n)]
        elif c in ('X', 'Y', 'DEPTH', 'SKIN'):
            out[c] = [round(float(x), 3) for x in rng.uniform(-50.0, 5000.0, n)]
        else:
            out[c] = [round(float(x), 3) for x in rng.uniform(0.05, 20.0, n)]
    return out


def same_table(df, cells, table, cols, one, msg, tol = 2e-6):
    eq(len(df), len(cells), f'rows {msg}')
    arr_eq(df.iloc[:, :3].to_numpy(dtype = int), np.array([(c[2] + one, c[1] + one, c[0] + one) for c in cells]), f'cells {msg}')
    for c in cols:
        if c == 'STAT':
            eq(['ON' if str(x).upper() in ('1', 'ON', 'TRUE') else 'OFF' for x in df[c]], table[c], f'{c} {msg}')
        else:
            arr_close(df[c].to_numpy(dtype = float), np.array(table[c], dtype = float), tol, f'{c} {msg}', 1e-6)


WELL = dict(g = GRID, seed = seeds, n = st.integers(1, 8), style = st.sampled_from(['walk', 'jumps', 'down']))


@check('cells', st.fixed_dictionaries(dict(WELL, route = st.sampled_from(['wellspec', 'df', 'list']), uom = st.sampled_from(['', '', 'm', 'ft']), cols = st.lists(st.sampled_from(EXTRA), unique = True, max_size = 4), other = st.booleans(), tabs = st.booleans(), lf = st.booleans())),
       quick = 150, thorough = 1500, rule = 'more than two cells with extra columns')
def cells_route(s, ctx):
    g = s['g']
    m = ctx.new_model('cells')
    grid, corners = make_grid(m, g)
    cells = cells_of(s, g)
    rng = np.random.default_rng(s['seed'] + 1)
    uom = s['uom'] or None
    eff = uom or g['z']
    table = extra_table(rng, s['cols'], len(cells))
    if len(cells) > 2 and s['cols']:
        ctx.nontrivial()
    faces = faces_by_moves(cells)
    pairs = [(face_mid(corners(c), *f[0]), face_mid(corners(c), *f[1])) for c, f in zip(cells, faces)]
    exp = expected_intervals(pairs, g, eff)
    frame = pd.DataFrame(dict([('IW', [c[2] + 1 for c in cells]), ('JW', [c[1] + 1 for c in cells]), ('L', [c[0] + 1 for c in cells])] + [(k, table[k]) for k in s['cols']]))
    bw = rqw.BlockedWell(m, well_name = 'WELL_A')
    cols = list(s['cols'])
    if s['route'] == 'list':
        cols = []
        got = bw.derive_from_cell_list(np.array(cells), 'WELL_A', grid, length_uom = uom)
    elif s['route'] == 'df':
        got = bw.derive_from_dataframe(frame, 'WELL_A', grid, add_as_properties = (cols if s['lf'] else True) if cols else False, length_uom = uom)
    else:
        path = ctx.path('in.dat')
        order = list(frame.columns)
        if s['lf']:
            rng.shuffle(order)
        if s['other']:
            order.insert(int(rng.integers(len(order) + 1)), 'GRID')
        with open(path, 'w') as fp:
            fp.write('WELLSPEC WELL_B\nIW JW L\n1 1 1\n\nWELLSPEC WELL_A\n! note\n' + ' '.join(order) + '\n')
            for i in range(len(frame)):
                while s['other'] and rng.random() < 0.4:  # rows for another grid
                    fp.write(' '.join('LGR_1' if c == 'GRID' else 'ON' if c == 'STAT' else '1' for c in order) + '\n')
                fp.write(' '.join('MAIN_grid'.replace('_', ' ').replace(' ', '_') if c == 'GRID' else str(frame[c].iloc[i]) for c in order) + '\n')
            while s['other'] and rng.random() < 0.4:
                fp.write(' '.join('LGR_1' if c == 'GRID' else 'ON' if c == 'STAT' else '1' for c in order) + '\n')
        if s['other']:
            grid, corners = make_grid(m, g, title = 'Main_Grid')
        got = bw.derive_from_wellspec(path, 'WELL_A', grid, check_grid_name = s['other'], add_properties = (cols if s['tabs'] else True) if cols else False, length_uom = uom)
    ok(got is bw, 'derivation failed')
    same_well(bw, grid, cells, faces, exp, 'as derived')
    if bw.root is None:
        bw.write_hdf5()
        bw.create_xml()
    m.store_epc()
    m2 = ctx.reopen(m)
    bw2 = rqw.BlockedWell(m2, uuid = bw.uuid)
    grid2 = m2.grid(uuid = grid.uuid)
    same_well(bw2, grid2, cells, faces, exp, 'read back')
    eq(rqw.well_name(bw2), 'WELL_A', 'well name')
    pc = rqp.PropertyCollection(support = bw2)
    # note: an empty DATE property is added when all the columns of a wellspec file are
    eq(sorted(t for t in pc.titles() if t != 'DATE'), sorted(cols), 'properties')
    # round trip through tables
    # note: unit conversion of property values is covered by the limits check
    df = bw2.dataframe(extra_columns_list = cols, use_properties = True, length_uom = eff)
    same_table(df, cells, table, cols, 1, 'in table from properties')
    df = bw2.dataframe(i_col = 'I', j_col = 'J', k_col = 'K', one_based = False)
    eq(list(df.columns), ['I', 'J', 'K'], 'columns of simple table')
    same_table(df, cells, table, [], 0, 'in simple table')
    path = ctx.path('out.dat')
    if s['tabs']:
        rqw_df = bw2.write_wellspec(path, well_name = 'first', length_uom = None if s['lf'] else eff)
    df = bw2.write_wellspec(path, extra_columns_list = cols, use_properties = True, length_uom = eff, space_instead_of_tab_separator = not s['tabs'], preceeding_blank_lines = 2 if s['lf'] else 0, trailing_blank_lines = 1 if s['lf'] else 0, length_uom_comment = s['lf'])
    same_table(df, cells, table, cols, 1, 'returned by write')
    d = wsk.load_wellspecs(path)
    eq(list(d.keys()), ['first', 'WELL_A'] if s['tabs'] else ['WELL_A'], 'wells in file written')
    eq(list(d['WELL_A'].columns), ['IW', 'JW', 'L'] + cols, 'columns in file written')
    same_table(d['WELL_A'], cells, table, cols, 1, 'in file written', 0.00051)
    if s['tabs']:
        same_table(d['first'], cells, table, [], 1, 'in first well written')
        same_table(rqw_df, cells, table, [], 1, 'in first table written')
    with open(path) as fp:
        ok(('METRIC' if eff == 'm' else 'ENGLISH') in fp.read(), 'units in file written')
    bw3 = rqw.BlockedWell(m2, wellspec_file = path, well_name = 'WELL_A', grid = grid2, add_wellspec_properties = False) if not uom else rqw.BlockedWell(m2, well_name = 'WELL_A')
    if uom:
        bw3.derive_from_wellspec(path, 'WELL_A', grid2, add_properties = False, length_uom = uom)
    same_well(bw3, grid2, cells, faces, exp, 'from file written')


@check('dates', st.fixed_dictionaries(dict(WELL, dates = st.integers(1, 4), first = st.booleans(), usa = st.booleans(), cols = st.lists(st.sampled_from(['SKIN', 'KH', 'STAT', 'PPERF', 'RADW']), unique = True, min_size = 1, max_size = 3), all = st.booleans(), before = st.booleans(), gaps = st.booleans())),
       quick = 80, thorough = 800, rule = 'more than one date for the well')
def dates(s, ctx):
    """Wellspec with several dates made into a blocked well with time dependent properties."""
    g = s['g']
    m = ctx.new_model('dates')
    grid, corners = make_grid(m, g)
    cells = cells_of(s, g)
    rng = np.random.default_rng(s['seed'] + 1)
    path = ctx.path('in.dat')
    cols = s['cols']
    sets = []  # (iso date or None, table)
    lines = []

    def put(date):
        table = extra_table(rng, cols, len(cells))
        sets.append((date, table))
        lines.append('WELLSPEC WELL_A')
        lines.append('IW JW L ' + ' '.join(cols))
        for i, c in enumerate(cells):
            lines.append(' '.join([str(c[2] + 1), str(c[1] + 1), str(c[0] + 1)] + [str(table[k][i]) for k in cols]))
        lines.append('')

    if s['first']:
        put(None)
    all_dates = []
    for i in range(s['dates']):
        iso = f'20{10 + i:02d}-{1 + i:02d}-{3 + i:02d}'
        y, mo, d = iso.split('-')
        lines.append(f'TIME {mo}/{d}/{y}' if s['usa'] else f'TIME {d}/{mo}/{y}')
        here = not (s['gaps'] and i == 1) and not (s['before'] and i == 0)
        if not here or s['all']:
            lines += ['WELLSPEC OTHER', 'IW JW L SKIN', '1 1 1 3.0']
            all_dates.append(iso)
        if here:
            put(iso)
            if iso not in all_dates:
                all_dates.append(iso)
    if not sets:
        return
    with open(path, 'w') as fp:
        fp.write('\n'.join(lines) + '\n')
    dated = [d for d, _ in sets if d]
    if len(dated) > 1:
        ctx.nontrivial()
    bw = rqw.BlockedWell(m, well_name = 'WELL_A')
    got = bw.derive_from_wellspec(path, 'WELL_A', grid, add_properties = True if s['all'] else list(cols), usa_date_format = s['usa'])
    ok(got is bw, 'derivation failed')
    m.store_epc()
    m2 = ctx.reopen(m)
    eq(len(m2.uuids(obj_type = 'BlockedWellboreRepresentation')), 1, 'blocked wells')
    bw2 = rqw.BlockedWell(m2, uuid = bw.uuid)
    faces = faces_by_moves(cells)
    pairs = [(face_mid(corners(c), *f[0]), face_mid(corners(c), *f[1])) for c, f in zip(cells, faces)]
    same_well(bw2, m2.grid(uuid = grid.uuid), cells, faces, expected_intervals(pairs, g, g['z']), 'read back')
    pc = rqp.PropertyCollection(support = bw2)
    eq(pc.number_of_parts(), len(sets) * len(cols), 'number of properties')
    ts_uuid = None
    if dated:
        ts_uuids = m2.uuids(obj_type = 'TimeSeries')
        eq(len(ts_uuids), 1, 'time series')
        ts_uuid = ts_uuids[0]
        ts = rqts.TimeSeries(m2, uuid = ts_uuid)
        eq([t[:10] for t in ts.timestamps], all_dates, 'dates of time series')
    for date, table in sets:
        ti = None if date is None else all_dates.index(date)
        for c in cols:
            parts = [p for p in pc.parts() if pc.citation_title_for_part(p) == c and pc.time_index_for_part(p) == ti]
            eq(len(parts), 1, f'properties {c} at {date}')
            arr = pc.cached_part_array_ref(parts[0])
            if date is not None:
                ok(bu.matching_uuids(pc.time_series_uuid_for_part(parts[0]), ts_uuid), f'time series of {c} at {date}')
            if c == 'STAT':
                arr_eq(arr, np.array([1 if x == 'ON' else 0 for x in table[c]]), f'{c} at {date}')
            else:
                arr_close(arr, np.array(table[c]), 1e-6, f'{c} at {date}', 1e-6)
        if date is not None:
            df = bw2.dataframe(extra_columns_list = cols, use_properties = True, property_time_index = ti, length_uom = g['z'])
            same_table(df, cells, table, cols, 1, f'in table at {date}')
    bw3 = rqw.BlockedWell(m2, well_name = 'WELL_A')
    bw3.derive_from_wellspec(path, 'WELL_A', m2.grid(uuid = grid.uuid), add_properties = False, usa_date_format = s['usa'])
    arr_eq(bw3.cell_indices, bw2.cell_indices, 'cells using last data only')


def slab(cp, dirn):
    """For parallelepiped, line through centre: ((entry face), (exit face), entry point, exit point, clear)."""
    centre = cp.reshape((-1, 3)).mean(axis = 0)
    axes = [cp[1, 0, 0] - cp[0, 0, 0], cp[0, 1, 0] - cp[0, 0, 0], cp[0, 0, 1] - cp[0, 0, 0]]
    comp = np.linalg.solve(np.array(axes).T, dirn)
    order = np.sort(np.abs(comp))
    ax = int(np.argmax(np.abs(comp)))
    t = 0.5 / abs(comp[ax])
    pol = 1 if comp[ax] > 0.0 else 0
    return (ax, 1 - pol), (ax, pol), centre - t * dirn, centre + t * dirn, order[2] - order[1] > 1e-4 * order[2]


@check('angles', st.fixed_dictionaries(dict(WELL, anglv = st.lists(st.sampled_from([0.0, 30.0, 61.5, 88.0, 90.0, 12.25]), min_size = 8, max_size = 8), angla = st.lists(st.sampled_from([0.0, 90.0, -77.0, 10.0, 170.0, -140.0]), min_size = 8, max_size = 8), cellio = st.booleans(), over = st.booleans(), file = st.booleans())),
       quick = 120, thorough = 1200, rule = 'inclined well in more than one cell')
def angles(s, ctx):
    """Wells with angles, or as cellio files, with points inside cells."""
    g = dict(s['g'], xy = s['g']['z'])
    if not s['cellio']:
        g['up'] = False
        g['ky'] = 1
    m = ctx.new_model('angles')
    grid, corners = make_grid(m, g)
    cells = cells_of(s, g)
    pairs, faces = [], []
    n = len(cells)
    for i, c in enumerate(cells):
        v, a = math.radians(s['anglv'][i]), math.radians(s['angla'][i])
        if s['anglv'][i] == 0.0:
            a = 0.0
        # angla measured from the I axis (x axis here), positive anticlockwise
        dirn = np.array([math.sin(v) * math.cos(a), math.sin(v) * math.sin(a), math.cos(v)])
        if s['cellio'] and g['up']:
            dirn[2] = -dirn[2]
        entry, leave, p, q, clear = slab(corners(c), dirn)
        if not clear:
            return
        pairs.append((p, q))
        faces.append((entry, leave))
    if n > 1 and any(v > 0.0 for v in s['anglv'][:n]):
        ctx.nontrivial()
    bw = rqw.BlockedWell(m, well_name = 'WELL_A')
    path = ctx.path('in.dat')
    if s['cellio']:
        rng = np.random.default_rng(s['seed'])
        with open(path, 'w') as fp:
            for name in ('OTHER', 'WELL_A', 'Third'):
                if name == 'OTHER' and s['file']:
                    continue
                fp.write('1.0\nUndefined\n' + name + '\n9\n')
                for h in ('i', 'j', 'k', 'xi', 'yi', 'zi', 'xo', 'yo', 'zo'):
                    fp.write(h + ' unit 1 lin\n')
                if name != 'WELL_A':
                    fp.write('1 1 1 1 2 3 4 5 6\n\n')
                    continue
                neg = bool(rng.integers(2))  # depths or elevations
                for c, (p, q) in zip(cells, pairs):
                    z = [abs(p[2]) * (-1 if neg else 1), abs(q[2]) * (-1 if neg else 1)]
                    fp.write(f'{c[2] + 1} {c[1] + 1} {c[0] + 1} {p[0]:.8f} {p[1]:.8f} {z[0]:.8f} {q[0]:.8f} {q[1]:.8f} {z[1]:.8f}' + (' 3.5' if s['file'] else '') + '\n')
                fp.write('\n')
        eq(rqwu.well_names_in_cellio_file(path), (['OTHER'] if not s['file'] else []) + ['WELL_A', 'Third'], 'well names in cellio file')
        got = bw.import_from_rms_cellio(path, 'WELL_A', grid, include_overburden_unblocked_interval = s['over'])
        ok(got is bw, 'cellio import failed')
        exp = expected_intervals(pairs, g, g['z'], s['over'])
        same_well(bw, grid, cells, faces, exp, 'from cellio')
        ok(rqw.BlockedWell(m, well_name = 'nobody').import_from_rms_cellio(path, 'nobody', grid) is None, 'unknown well found in cellio file')
    else:
        frame = pd.DataFrame(dict(IW = [c[2] + 1 for c in cells], JW = [c[1] + 1 for c in cells], L = [c[0] + 1 for c in cells], ANGLA = s['angla'][:n], ANGLV = s['anglv'][:n]))
        if s['file']:
            with open(path, 'w') as fp:
                fp.write('WELLSPEC WELL_A\n' + frame.to_string(index = False) + '\n')
            got = bw.derive_from_wellspec(path, 'WELL_A', grid, add_properties = s['over'])
        else:
            got = bw.derive_from_dataframe(frame, 'WELL_A', grid, use_face_centres = False)
        ok(got is bw, 'derivation failed')
        exp = expected_intervals(pairs, g, g['z'])
        same_well(bw, grid, cells, faces, exp, 'from angles')
    if bw.root is None:
        bw.write_hdf5()
        bw.create_xml()
    m.store_epc()
    m2 = ctx.reopen(m)
    bw2 = rqw.BlockedWell(m2, uuid = bw.uuid)
    same_well(bw2, m2.grid(uuid = grid.uuid), cells, faces, exp, 'read back')
    if not s['cellio']:
        df = bw2.dataframe(extra_columns_list = ['ANGLA', 'ANGLV'], anglv_ref = 'gravity')
        # previous exit point replaces entry point when close by
        mds, points, flags = exp
        k = 0
        for i, f in enumerate(flags):
            if f < 0:
                continue
            if np.allclose(points[i], pairs[k][0], atol = 1e-6):
                close(df.iloc[k]['ANGLV'], s['anglv'][k], 1e-3, f'ANGLV row {k}')
                if s['anglv'][k] > 0.0:
                    diff = (df.iloc[k]['ANGLA'] - s['angla'][k] + 180.0) % 360.0 - 180.0
                    close(diff, 0.0, 1e-3, f'ANGLA row {k}')
            k += 1


def limit(rng, p, fn):
    return fn() if rng.random() < p else None


@check('limits', st.fixed_dictionaries(dict(WELL, p = st.sampled_from([0.15, 0.35]), one = st.booleans(), lmode = st.sampled_from(['MD', 'straight']), uom = st.sampled_from(['', 'm', 'ft']), aniso = st.sampled_from([0, 1, 2, 3]), ntg = st.booleans(), pref = st.booleans(), down = st.sampled_from([None, True, False]), write = st.booleans(), shape = st.sampled_from(['face', 'face', 'path']), radw = st.booleans(), pass_dict = st.booleans())),
       quick = 220, thorough = 2500, rule = 'some rows kept and some excluded')
def limits(s, ctx):
    g = s['g']
    m = ctx.new_model('limits')
    grid, corners = make_grid(m, g)
    rng = np.random.default_rng(s['seed'] + 5)
    ext = (g['nk'], g['nj'], g['ni'])
    arrays = dict(active = rng.random(ext) < 0.7, satw = np.round(rng.random(ext), 3), sato = np.round(rng.random(ext), 3), satg = np.round(rng.random(ext), 3), ntg = np.round(rng.uniform(0.2, 1.0, ext), 3), ki = np.round(rng.uniform(1.0, 500.0, ext), 2), kj = np.round(rng.uniform(1.0, 500.0, ext), 2), kk = np.round(rng.uniform(0.1, 50.0, ext), 2), region = rng.integers(0, 4, ext))
    uu = {}
    for k, (kind, disc, facet) in dict(active = ('active', True, None), satw = ('saturation', False, 'water'), sato = ('saturation', False, 'oil'), satg = ('saturation', False, 'gas'), ntg = ('net to gross ratio', False, None), ki = ('permeability rock', False, 'I'), kj = ('permeability rock', False, 'J'), kk = ('permeability rock', False, 'K'), region = ('region initialization', True, None)).items():
        p = rqp.Property.from_array(m, arrays[k].astype(np.int8) if k == 'active' else arrays[k], source_info = 'gen', keyword = k, property_kind = kind, support_uuid = grid.uuid, discrete = disc, uom = 'mD' if k[0] == 'k' else None if disc else 'm3/m3', facet_type = None if facet is None else 'what' if k.startswith('sat') else 'direction', facet = facet, null_value = -1 if disc else None)
        uu[k] = p.uuid
    m.store_epc()
    m = ctx.reopen(m)
    grid = m.grid(uuid = grid.uuid)
    cells = cells_of(s, g)
    base = s['uom'] or g['z']
    md_uom = g['z']
    bw = rqw.BlockedWell(m, well_name = 'W')
    bw.derive_from_cell_list(np.array(cells), 'W', grid)
    bw.write_hdf5()
    bw.create_xml()
    faces = faces_by_moves(cells)
    pairs = [(face_mid(corners(c), *f[0]), face_mid(corners(c), *f[1])) for c, f in zip(cells, faces)]
    mds, points, flags = expected_intervals(pairs, g, md_uom)
    same_well(bw, grid, cells, faces, (mds, points, flags), 'as derived')
    spans = [i for i, f in enumerate(flags) if f == 0]
    up = g['up']
    uom = s['uom'] or None
    # values for each interval
    tz = [length_to(1.0, g['z'], g['z']), length_to(1.0, g['xy'], g['z'])]
    rows = []
    aniso = s['aniso'] > 0
    perf = None
    if rng.random() < s['p']:
        perf = []
        for _ in range(int(rng.integers(0, 4))):
            a = rng.uniform(mds[spans[0]] - 5.0, mds[-1])
            perf.append((float(a), float(a + rng.uniform(0.5, 60.0))))
        perf.sort()
        for i in range(len(perf) - 1):  # not overlapping
            perf[i] = (perf[i][0], min(perf[i][1], perf[i + 1][0]))
    to_uom = lambda v, a: v if uom is None else length_to(v, a, uom)
    radw_arg = 0.2 if s['radw'] else None
    radw = radw_arg if radw_arg else (0.33 if (uom or g['xy']) == 'ft' else 0.1)
    for c, i in zip(cells, spans):
        r = dict(c = c)
        a, b = mds[i], mds[i + 1]
        r['frac'] = 1.0
        if perf is not None:
            r['perf'] = sum(max(0.0, min(b, y) - max(a, x)) for x, y in perf)
            r['frac'] = min(1.0, r['perf'] / (b - a))
        sc = np.array([length_to(1.0, g['xy'], g['z'])] * 2 + [1.0])
        vec = (points[i + 1] - points[i]) * sc  # in z units
        straight = float(np.linalg.norm(vec))
        r['LENGTH'] = to_uom((b - a) if s['lmode'] == 'MD' else straight, md_uom) * r['frac']
        r['MD'] = to_uom(0.5 * (a + b), md_uom)
        mid = 0.5 * (points[i] + points[i + 1])
        r['X'], r['Y'] = to_uom(mid[0], g['xy']), to_uom(mid[1], g['xy'])
        z = to_uom(mid[2], g['z'])
        r['DEPTH'] = -z if (s['down'] and up) else z
        if straight < 1e-6:
            return  # starts with a turn back out of the face of entry
        unit = vec / straight
        r['ANGLV'] = math.degrees(math.acos(max(-1.0, min(1.0, unit[2] * (-1.0 if up else 1.0)))))
        cp = corners(c)
        ivec = ((cp[0, 0, 1] - cp[0, 0, 0]) * sc)[:2]
        ivec /= np.linalg.norm(ivec)
        hor = math.hypot(unit[0], unit[1])
        r['hor'] = hor
        cosa = sina = None
        if hor > 1e-6:
            cosa = (unit[0] * ivec[0] + unit[1] * ivec[1]) / hor
            sina = (ivec[0] * unit[1] - ivec[1] * unit[0]) / hor
            r['ANGLA'] = math.degrees(math.atan2(sina, cosa))
        ki, kj, kk = (float(arrays[k][c]) for k in ('ki', 'kj', 'kk'))
        if not s['aniso'] & 1:
            kj = ki
        if not s['aniso'] & 2:
            kk = ki
        ntg = float(arrays['ntg'][c]) if s['ntg'] else 1.0
        r['fuzzy'] = False
        if s['ntg'] and abs(ntg - 1.0) > 0.0011:
            e = ntg
            if s['pref']:
                e = 1.0 if r['frac'] <= ntg else ntg / r['frac']
            ki *= e
            kj *= e
        elif s['ntg']:
            r['fuzzy'] = True
        sv, cv = math.sin(math.radians(r['ANGLV'])), math.cos(math.radians(r['ANGLV']))
        ca, sa = (cosa, sina) if cosa is not None else (1.0, 0.0)
        # k times length, for each component of length: square root of product of other two permeabilities
        r['KH'] = r['LENGTH'] * math.sqrt(kj * kk * (sv * ca) ** 2 + ki * kk * (sv * sa) ** 2 + ki * kj * cv ** 2)
        # well index
        sizes = [float(np.sum((np.array([to_uom(1.0, g['xy']) if uom else length_to(1.0, g['xy'], g['z'])] * 2 + [to_uom(1.0, g['z'])]) * v) ** 2)) for v in (cp[1, 0, 0] - cp[0, 0, 0], cp[0, 1, 0] - cp[0, 0, 0], cp[0, 0, 1] - cp[0, 0, 0])]
        dk2, dj2, di2 = sizes
        kei, kej, kek = math.sqrt(kj * kk), math.sqrt(ki * kk), math.sqrt(ki * kj)
        rw = [0.5 * radw * (math.sqrt(kei / kj) + math.sqrt(kei / kk)), 0.5 * radw * (math.sqrt(kej / ki) + math.sqrt(kej / kk)), 0.5 * radw * (math.sqrt(kek / ki) + math.sqrt(kek / kj))]
        rb = [0.14 * math.sqrt(kei * (dj2 / kj + dk2 / kk)), 0.14 * math.sqrt(kej * (di2 / ki + dk2 / kk)), 0.14 * math.sqrt(kek * (di2 / ki + dj2 / kj))]
        w = [sv * ca, sv * sa, cv]
        r['RADB'] = radw * math.sqrt(sum((x * y) ** 2 for x, y in zip(rb, w))) / math.sqrt(sum((x * y) ** 2 for x, y in zip(rw, w)))
        r['WI'] = 2.0 * math.pi / (math.log(r['RADB'] / radw) + 0.0)
        r['WBC'] = (8.5270171e-5 if (uom or g['z']) == 'm' else 0.006328286) * r['KH'] * r['WI']
        r['PPERF'], r['RADW'], r['SKIN'], r['STAT'], r['GRID'] = r['frac'], radw, 0.0, 'ON', 'Main_Grid'
        r['cd'] = float(corners(c).reshape((-1, 3)).mean(axis = 0)[2]) * (-1.0 if up else 1.0)
        rows.append(r)
    # limits
    vals = lambda k: sorted(x[k] for x in rows)
    pick = lambda k: float(vals(k)[int(rng.integers(len(rows)))]) * (1.0 + rng.choice([-1e-3, 1e-3]))
    kw = dict(active_only = bool(rng.random() < s['p']) or None, min_k0 = limit(rng, s['p'], lambda: int(rng.integers(0, 2))), max_k0 = limit(rng, s['p'], lambda: int(rng.integers(1, 4))), k0_list = limit(rng, s['p'], lambda: [int(x) for x in range(5) if rng.random() < 0.7]), min_length = limit(rng, s['p'], lambda: pick('LENGTH')), min_kh = limit(rng, s['p'], lambda: pick('KH')), max_depth = limit(rng, s['p'], lambda: pick('cd')), max_satw = limit(rng, s['p'], lambda: float(np.round(rng.uniform(0.3, 1.0), 3))), min_sato = limit(rng, s['p'], lambda: float(np.round(rng.uniform(0.0, 0.7), 3))), max_satg = limit(rng, s['p'], lambda: float(np.round(rng.uniform(0.3, 1.0), 3))), region_list = limit(rng, s['p'], lambda: [int(x) for x in range(4) if rng.random() < 0.6]))
    kw = {k: v for k, v in kw.items() if v is not None}
    kept = []
    for r in rows:
        c = r['c']
        bad = ((kw.get('active_only') and not arrays['active'][c]) or ('min_k0' in kw and c[0] < kw['min_k0']) or ('max_k0' in kw and c[0] > kw['max_k0']) or ('k0_list' in kw and c[0] not in kw['k0_list']) or ('min_length' in kw and r['LENGTH'] < kw['min_length']) or ('min_kh' in kw and r['KH'] < kw['min_kh']) or ('max_depth' in kw and r['cd'] > kw['max_depth']) or ('max_satw' in kw and arrays['satw'][c] > kw['max_satw']) or ('min_sato' in kw and arrays['sato'][c] < kw['min_sato']) or ('max_satg' in kw and arrays['satg'][c] > kw['max_satg']) or ('region_list' in kw and arrays['region'][c] not in kw['region_list']) or (perf is not None and r['perf'] < 0.01))
        if not bad:
            kept.append(r)
    if perf is not None and any(0.005 < r['perf'] < 0.015 for r in rows):
        return
    if 'min_kh' in kw and any(r['fuzzy'] for r in rows):
        return
    if 0 < len(kept) < len(rows):
        ctx.nontrivial()
    form = (lambda u: {grid.uuid: u}) if s['pass_dict'] else (lambda u: u)
    kw.update(satw_uuid = form(uu['satw']), sato_uuid = form(uu['sato']), satg_uuid = form(uu['satg']), region_uuid = form(uu['region']), perm_i_uuid = uu['ki'], perforation_list = perf, length_mode = s['lmode'], length_uom = uom, preferential_perforation = s['pref'], anglv_ref = 'gravity')
    if s['aniso'] & 1:
        kw['perm_j_uuid'] = uu['kj']
    if s['aniso'] & 2:
        kw['perm_k_uuid'] = uu['kk']
    if s['ntg']:
        kw['ntg_uuid'] = uu['ntg']
    offer = ['GRID', 'ANGLA', 'ANGLV', 'LENGTH', 'KH', 'DEPTH', 'MD', 'X', 'Y', 'RADW', 'SKIN', 'PPERF', 'RADB', 'WI', 'WBC', 'STAT']
    cols = [c for c in offer if rng.random() < 0.4]
    if s['write']:
        cols = [c for c in cols if c != 'WBC']  # not a keyword of the simulator
    if s['shape'] == 'path':
        cols = [c for c in cols if c in ('X', 'Y', 'DEPTH', 'LENGTH', 'MD')]
    rng.shuffle(cols)
    extra = {}
    if s['radw']:
        extra['radw'] = radw
    if 'STAT' in cols:
        extra['stat'] = 'ON'
    df = bw.dataframe(extra_columns_list = [str(c) for c in cols], one_based = s['one'], depth_inc_down = s['down'], **kw, **extra)
    want_cols = ['IW', 'JW', 'L'] + [str(c) for c in cols] + (['RADW'] if s['radw'] and 'RADW' not in cols else [])
    eq(list(df.columns), want_cols, 'columns')
    one = 1 if s['one'] else 0
    eq([tuple(int(v) for v in x) for x in df.iloc[:, :3].to_numpy()], [(r['c'][2] + one, r['c'][1] + one, r['c'][0] + one) for r in kept], 'rows')
    for i, r in enumerate(kept):
        for c in want_cols[3:]:
            got = df.iloc[i][c]
            if c in ('GRID', 'STAT'):
                eq(str(got), r[c], f'{c} row {i}')
            elif c == 'ANGLA':
                if 'ANGLA' in r:
                    close((got - r[c] + 180.0) % 360.0 - 180.0, 0.0, 1e-3, f'{c} row {i}')
            elif not (r['fuzzy'] and c in ('KH', 'WBC', 'WI', 'RADB') or not uom and g['xy'] != g['z'] and c in ('WBC', 'WI', 'RADB')):
                close(got, r[c], 1e-4 if c in ('ANGLV', 'X', 'Y') else 2e-5, f'{c} row {i}', 1e-5)
    if not any(r['fuzzy'] for r in rows):
        close(bw.static_kh(**{k: v for k, v in kw.items()}), sum(r['KH'] for r in kept), 1e-4, 'total KH', 1e-5)
    if s['write']:
        path = ctx.path('w.dat')
        df2 = bw.write_wellspec(path, extra_columns_list = [str(c) for c in cols], depth_inc_down = s['down'], **kw, **extra)
        eq(len(df2), len(kept), 'rows written')
        if kept:
            d = wsk.load_wellspecs(path, keep_null_columns = True)['W']
            eq([tuple(int(v) for v in x) for x in d.iloc[:, :3].to_numpy()], [(r['c'][2] + 1, r['c'][1] + 1, r['c'][0] + 1) for r in kept], 'rows of file')
            for c in want_cols[3:]:
                if c in ('GRID', 'STAT'):
                    continue
                arr_close(d[c].to_numpy(dtype = float), df2[c].to_numpy(dtype = float), 0.00051, f'{c} of file', 1e-6)
                arr_close(df2[c].to_numpy(dtype = float), df[c].to_numpy(dtype = float), 1e-9, f'{c} of table written', 1e-9)
