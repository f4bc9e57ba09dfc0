"""Points of generated grids are made undefined in generated patterns (single points, parts of pillars, whole pillars, rows at the edge, marked with a value, or areally collapsed cells); the flags, the inactive mask and every point after the grid works out, removes or fills undefined geometry are compared with an independent calculation on the points given.

Grids without split coordinate lines; where filling across pillars needs judgement (holes which are not surrounded) only that defined points are kept and no point is left undefined is required."""
import numpy as np

import resqpy.model as rq
import resqpy.grid as grr
import resqpy.olio.uuid as bu

from pbt.core import *
from pbt.lib.gen import *
from pbt.lib import grids as GR

FILL = st.sampled_from(['none', 'partial', 'nullify', 'all', 'nullify all'])
BASE = GR.grid_specs(max_k = 4, max_ji = 4, faults = False, undefined = False, pinch = False)
SPEC = st.fixed_dictionaries(dict(g = BASE, p = st.fixed_dictionaries(dict(points = st.sampled_from([0.0, 0.0, 0.05, 0.2]), parts = st.sampled_from([0.0, 0.2, 0.5]), pillars = st.sampled_from([0.0, 0.0, 0.1, 0.3]), frame = st.sampled_from([None, None, None, 'j0', 'j1', 'i0', 'i1', 'j0i1', 'all']), seed = seeds)), fill = FILL, value = st.sampled_from([None, None, None, 0.0, -999.0, 1.0e30]),
                                  crs = st.sampled_from([{}, {'z_inc_down': False}]), store = st.booleans(), before = st.booleans(), keep = st.booleans()))


def holes(shape, p):
    """Mask of undefined points, shape (nk1, nj1, ni1)."""
    nk1, nj1, ni1 = shape
    rng = np.random.default_rng(p['seed'])
    m = rng.random(shape) < p['points']
    for j in range(nj1):
        for i in range(ni1):
            if rng.random() < p['parts']:
                a = int(rng.integers(nk1))
                m[a:a + int(rng.integers(1, nk1 + 1)), j, i] = True
    m |= (rng.random((nj1, ni1)) < p['pillars'])[None]
    f = p['frame'] or ''
    if 'j0' in f or f == 'all':
        m[:, 0] = True
    if 'j1' in f or f == 'all':
        m[:, -1] = True
    if 'i0' in f or f == 'all':
        m[:, :, 0] = True
    if 'i1' in f or f == 'all':
        m[:, :, -1] = True
    return m


def cells_defined(good, raw):
    """Cells all of whose corners are good points; raw: index of the top points of each layer."""
    col = good[:, :-1, :-1] & good[:, :-1, 1:] & good[:, 1:, :-1] & good[:, 1:, 1:]
    return col[raw] & col[raw + 1]


def flags(g):
    """Cells and pillars said to have geometry, as full arrays."""
    a = g.cell_geometry_is_defined_ref()
    if a is None:
        eq(bool(g.geometry_defined_for_all_cells()), True, 'all cells defined when there is no array')
        a = np.ones((g.nk, g.nj, g.ni), dtype = bool)
    p = g.pillar_geometry_is_defined_ref()
    if p is None:
        eq(bool(g.geometry_defined_for_all_pillars()), True, 'all pillars defined when there is no array')
        p = np.ones((g.nj + 1, g.ni + 1), dtype = bool)
    return np.asarray(a, dtype = bool), np.asarray(p, dtype = bool)


def judge_flags(g, cells, pillars, what):
    a, p = flags(g)
    arr_eq(a, cells, f'{what}: cells with geometry')
    arr_eq(p, pillars, f'{what}: pillars with geometry')
    eq(bool(g.geometry_defined_for_all_cells()), bool(cells.all()), f'{what}: geometry defined for all cells')
    eq(bool(g.geometry_defined_for_all_pillars()), bool(pillars.all()), f'{what}: geometry defined for all pillars')
    for k, j, i in list(np.ndindex(cells.shape))[::3]:
        eq(bool(g.cell_geometry_is_defined((k, j, i))), bool(cells[k, j, i]), f'{what}: geometry of cell {(k, j, i)}')
    for j, i in np.ndindex(pillars.shape):
        eq(bool(g.pillar_geometry_is_defined((j, i))), bool(pillars[j, i]), f'{what}: geometry of pillar {(j, i)}')


def completed(col):
    """Points of one partly defined pillar with the gaps filled: constant beyond the ends and linear by index between."""
    k = np.arange(len(col))
    good = ~np.isnan(col[:, 0])
    return np.stack([np.interp(k, k[good], col[good, a]) for a in range(3)], axis = -1)


def raw_index(g):
    return np.asarray(g.k_raw_index_array) if g.k_gaps else np.arange(g.nk)


def spacing(s):
    """True if the pillars are vertical and evenly spaced."""
    return not s.get('noise', (0.0, 0.0))[0] and not any(s.get('tilt', (0.0, 0.0)))


@check('undefined', SPEC, quick = 400, thorough = 20000, shards = 4, rule = 'some but not all points undefined')
def undefined(spec, ctx):
    m = ctx.new_model()
    crs = GR.make_crs(m, spec['crs'])
    g = GR.build(m, spec['g'], crs.uuid)
    p0 = g.points_ref(masked = False)
    if p0.ndim != 4:
        return
    was_inactive = np.zeros((g.nk, g.nj, g.ni), dtype = bool) if g.inactive is None else np.array(g.inactive, dtype = bool)
    bad = holes(p0.shape[:3], spec['p'])
    if bad.all() or (spec['fill'] == 'nullify all' and bad.any(axis = 0).all()):
        return
    given = p0.copy()
    value = spec['value']
    if value is not None and np.any(given == value):
        value = -12345.0
    if value is None:
        given[bad] = np.nan
    else:
        w = np.argwhere(bad)
        rng = np.random.default_rng(spec['p']['seed'] + 1)
        for k, j, i in w:  # the value in any of x, y and z marks the point
            given[k, j, i, rng.integers(3)] = value if rng.random() < 0.8 else np.nan
    if spec['before']:
        flags(g)  # stale information is to be discarded
    g.points_cached = given.copy()
    fill = spec['fill']
    kw = {'none': {}, 'partial': {'complete_partial_pillars': True}, 'nullify': {'nullify_partial_pillars': True}, 'all': {'complete_all': True}, 'nullify all': {'nullify_partial_pillars': True, 'complete_all': True}}[fill]
    if value is not None:
        kw['treat_as_nan'] = value
    raw = raw_index(g)
    g.set_geometry_is_defined(**kw)
    if bad.any():
        ctx.nontrivial()
    ctx.label(fill)
    judge(g, p0, bad, was_inactive, raw, fill, spec)
    # the state survives storage
    if spec['store']:
        cells, pillars = flags(g)
        after = g.points_ref(masked = False).copy()
        inactive = None if g.inactive is None else np.array(g.inactive)
        GR.store(g, 'holed')
        m.store_epc(quiet = True)
        m = ctx.reopen(m)
        h = grr.any_grid(m, uuid = g.uuid)
        judge_flags(h, cells, pillars, 'after reopening')
        arr_eq(np.isnan(h.points_ref(masked = False)), np.isnan(after), 'after reopening: undefined points')
        arr_close(np.nan_to_num(h.points_ref(masked = False)), np.nan_to_num(after), 1.0e-9, 'after reopening: points')
        got = h.extract_inactive_mask()
        arr_eq(np.zeros(cells.shape, dtype = bool) if got is None else np.asarray(got, dtype = bool), (np.zeros(cells.shape, dtype = bool) if inactive is None else inactive) | ~cells, 'after reopening: inactive cells')


def judge(g, p0, bad, was_inactive, raw, fill, spec):
    nk1, nj1, ni1 = bad.shape
    good = ~bad
    pillars = good.any(axis = 0)
    partial = pillars & bad.any(axis = 0)
    cells = cells_defined(good, raw)
    after = g.points_ref(masked = False)
    eq(after.shape, p0.shape, 'shape of points')
    gone = bad.copy()
    if fill.startswith('nullify'):
        gone |= partial[None]
    # points that were defined are never changed, except that nullifying removes them
    ok(np.array_equal(after[~gone], p0[~gone]), f'{fill}: a defined point was changed')
    inactive = np.zeros(cells.shape, dtype = bool) if g.inactive is None else np.asarray(g.inactive, dtype = bool)
    if fill.startswith('nullify'):
        cells = cells_defined(~gone, raw)
        pillars = ~gone.any(axis = 0)
    arr_eq(inactive, was_inactive | ~cells, f'{fill}: inactive cells')
    eq(bool(g.all_inactive) if bad.any() else False, bool(inactive.all()) if bad.any() else False, f'{fill}: all cells inactive')
    if fill in ('none', 'nullify'):
        ok(np.all(np.isnan(after[gone])), f'{fill}: an undefined point has values')
        judge_flags(g, cells, pillars, fill)
        return
    if fill in ('partial', 'all'):
        for j, i in np.argwhere(partial):
            want = p0[:, j, i].copy()
            want[bad[:, j, i]] = np.nan
            arr_close(after[:, j, i], completed(want), 1.0e-6, f'{fill}: completed pillar {(j, i)}')
    if fill == 'partial':
        none = ~pillars
        ok(np.all(np.isnan(after[:, none])), 'a pillar with no defined point has values')
        full = np.broadcast_to(pillars[None], bad.shape)
        judge_flags(g, cells_defined(full, raw), pillars, fill)
        return
    # everything filled
    ok(not np.any(np.isnan(after)), f'{fill}: a point is still undefined')
    judge_flags(g, np.ones(cells.shape, dtype = bool), np.ones((nj1, ni1), dtype = bool), fill)
    known = pillars
    base = after  # completed pillars included
    empty = ~known
    # a single missing pillar amid four known ones is put at their mean
    for j, i in np.argwhere(empty):
        if 0 < j < nj1 - 1 and 0 < i < ni1 - 1 and known[j - 1, i] and known[j + 1, i] and known[j, i - 1] and known[j, i + 1]:
            if empty[j].all() or empty[:, i].all():
                continue
            arr_close(after[:, j, i], 0.25 * (base[:, j - 1, i] + base[:, j + 1, i] + base[:, j, i - 1] + base[:, j, i + 1]), 1.0e-6, f'{fill}: pillar {(j, i)} filled from its four neighbours')
    # whole rows missing at the edges only: the lattice is continued
    rows, cols = ~empty.all(axis = 1), ~empty.all(axis = 0)
    if empty.any() and np.array_equal(known, rows[:, None] & cols[None]) and spacing(spec['g']) and rows.sum() > 1 and cols.sum() > 1:
        r, c = np.flatnonzero(rows), np.flatnonzero(cols)
        if np.all(np.diff(r) == 1) and np.all(np.diff(c) == 1):
            arr_close(after[..., :2], p0[..., :2], 1.0e-6, f'{fill}: x and y of pillars around the defined part')
            z = base[:, known, 2]
            deepest = z.max() if g.z_inc_down() else z.min()
            ok(np.all(after[:, empty, 2] == after[0, empty, 2][0]), f'{fill}: depth of pillars around the defined part')
            given = p0[..., 2][good]
            want = given.max() if g.z_inc_down() else given.min()
            if not fill.startswith('nullify'):
                close(after[0, empty, 2][0], want, 1.0e-6, f'{fill}: depth of pillars around the defined part ({deepest})')


@check('collapsed', st.fixed_dictionaries(dict(n = st.tuples(st.integers(1, 4), st.integers(2, 5), st.integers(2, 5)), cells = st.lists(st.tuples(st.integers(0, 3), st.integers(0, 4), st.integers(0, 4)), min_size = 1, max_size = 3), gap = st.booleans(), crs = st.sampled_from([{}, {'z_inc_down': False}]), size = st.sampled_from([0.0, 0.0, 1.0e-5]))), quick = 200, thorough = 6000, shards = 2, rule = 'a collapsed cell in some but not all layers')
def collapsed(spec, ctx):
    nk, nj, ni = spec['n']
    m = ctx.new_model()
    crs = GR.make_crs(m, spec['crs'])
    gaps = [[0, 1.0]] if spec['gap'] and nk > 1 else []
    s = dict(n = [nk, nj, ni], d = [10.0, 10.0, 2.0], o = [0.0, 0.0, 1000.0], seed = 0)
    if gaps:
        s.update(gaps = gaps, gap_part = False)
    g = GR.build(m, s, crs.uuid)
    p = g.points_ref(masked = False).copy()
    raw = raw_index(g)
    dots = np.zeros((nk, nj, ni), dtype = bool)
    for k, j, i in spec['cells']:
        k, j, i = k % nk, j % nj, i % ni
        for r in (raw[k], raw[k] + 1):
            p[r, j:j + 2, i:i + 2, :2] = p[r, j, i, :2] + spec['size'] * np.arange(4).reshape(2, 2, 1)
            p[r, j:j + 2, i:i + 2, 2] = p[r, j, i, 2]
    def size(k, j, i):
        q = p[raw[k]:raw[k] + 2, j:j + 2, i:i + 2]
        return max(np.abs(q[:, 1] - q[:, 0]).max(), np.abs(q[:, :, 1] - q[:, :, 0]).max())
    for c in np.ndindex(dots.shape):
        dots[c] = size(*c) < 0.001
    ok(dots.any(), 'test set up')
    g.points_cached = p.copy()
    if hasattr(g, 'corner_points_cached'):
        del g.corner_points_cached
    g.inactive = dots.copy()
    bad = np.zeros(p.shape[:3], dtype = bool)
    for k, j, i in np.argwhere(dots):
        bad[raw[k]:raw[k] + 2, j:j + 2, i:i + 2] = True
    if bad.all():
        return
    if not dots.all(axis = 0)[dots.any(axis = 0)].all():
        ctx.nontrivial()
    arr_eq(g.point_areally(), dots, 'areally collapsed cells')
    g.set_geometry_is_defined(treat_dots_as_nan = True)
    after = g.points_ref(masked = False)
    arr_eq(np.isnan(after).any(axis = -1), bad, 'points made undefined')
    ok(np.array_equal(after[~bad], p[~bad]), 'a defined point was changed')
    cells = cells_defined(~bad, raw)
    judge_flags(g, cells, (~bad).any(axis = 0), 'collapsed')
    arr_eq(np.asarray(g.inactive, dtype = bool), dots | ~cells, 'inactive cells')
