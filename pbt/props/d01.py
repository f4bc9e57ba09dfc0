"""property-based testing: grids copied, extracted for a box or a well, and unsplit, compared cell by cell with the source

Corner point grids (faults, layer gaps, undefined, inactive and pinched cells, several coordinate reference systems) and
regular grids carry properties of every form.  Each operation is applied with the source held in its own or a new epc file
and given as a grid object or by epc file name; the grid returned and the grid found after reopening the file are compared
with the selection of the corner points, masks and values, and the source, in memory and reopened, with what it was.
"""
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.grid as grr
import resqpy.property as rqp
import resqpy.well as rqw
import resqpy.derived_model as rqdm

from pbt.core import *
from pbt.lib.gen import *
from pbt.lib import grids as gl
from pbt.lib import gprops as gp

CRS = [{}, {'z_inc_down': False}, {'xy_units': 'ft', 'z_units': 'm', 'x_offset': 100.0, 'rotation': 0.3}]

source = st.fixed_dictionaries(dict(
    grid = st.one_of(gl.grid_specs(max_k = 4, max_ji = 4), gl.grid_specs(max_k = 4, max_ji = 4), gl.grid_specs(max_k = 3, max_ji = 4, min_ji = 2),
                     st.fixed_dictionaries(dict(regular = st.tuples(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4)), lattice = st.booleans()))),
    crs = st.sampled_from(CRS), props = gp.prop_specs(), lines = st.booleans()))

plain = st.fixed_dictionaries(dict(
    grid = st.one_of(gl.grid_specs(max_k = 4, max_ji = 4, faults = False, gaps = False, undefined = False, pinch = False, noise = False, tilt = False, flip = False, min_ji = 2),
                     gl.grid_specs(max_k = 4, max_ji = 4, undefined = False, tilt = False, min_ji = 2)),
    crs = st.sampled_from(CRS), props = gp.prop_specs(max_size = 2), lines = st.booleans()))

inherit = st.fixed_dictionaries(dict(inherit_properties = st.sampled_from([True, True, True, False]), inherit_realization = st.sampled_from([None, None, 0, 1]), inherit_all_realizations = st.booleans()))
mode = st.fixed_dictionaries(dict(given = st.sampled_from(['epc', 'grid', 'grid epc']), new = st.booleans()))


class Source:
    """A stored source grid, with what is expected of it."""

    def __init__(self, s, ctx):
        self.ctx = ctx
        self.epc = ctx.path('source')
        m = ctx.track(rq.new_model(self.epc))
        self.m = m
        crs = gl.make_crs(m, s['crs'])
        gs = s['grid']
        if 'regular' in gs:
            g = grr.RegularGrid(m, extent_kji = tuple(gs['regular']), dxyz = (10.0, 20.0, 5.0), origin = (0.0, 0.0, 100.0), crs_uuid = crs.uuid, title = 'ROOT')
            if not gs['lattice']:
                g.make_regular_points_cached()
                g.write_hdf5()
            g.create_xml(add_cell_length_properties = False, write_geometry = True, use_lattice = gs['lattice'])
            ctx.label('regular')
        else:
            g = gl.build(m, gs, crs.uuid)
            # a form of storage which does not hold zero length pillars, gaps nor undefined cells
            lines = s['lines'] and not any(k in gs for k in ('pinch', 'gaps', 'undefined', 'noise'))
            gl.store(g, title = 'ROOT', lines = lines)
            for k in ('faults', 'gaps', 'undefined', 'inactive', 'pinch'):
                if k in gs:
                    ctx.label(k)
        ts, sl = gp.supports(m)
        self.n = tuple(int(x) for x in g.extent_kji)
        self.vals = gp.make(m, g, self.n, s['props'] if not gs.get('gaps') and not gs.get('faults') else [p for p in s['props'] if p['form'] != 'nodes'], ts, sl)
        m.store_epc()
        self.m = ctx.open_model(self.epc)
        self.uuid = g.uuid
        self.g = self.m.grid(uuid = g.uuid)
        other = ctx.open_model(self.epc)  # an independent view
        og = other.grid(uuid = g.uuid)
        if isinstance(og, grr.RegularGrid):
            og.make_regular_points_cached()
        self.was = gl.grid_state(og)
        self.parts = sorted(og.extract_property_collection().parts()) if og.extract_property_collection() is not None else []
        self.pc = og.extract_property_collection()
        self.regular = 'regular' in gs

    def unchanged(self, extra = 0):
        """Checks the source grid object in use and the one in the file."""
        if self.m is not None and self.g is not None:
            gl.same_state(gl.grid_state(self.g), self.was, 'source grid afterwards', skip = ('points', 'extra'))
            pc = self.g.extract_property_collection()
            got = [] if pc is None else sorted(pc.parts())
            ok(set(self.parts) <= set(got), f'properties gone from the source grid\'s collection: {len(set(self.parts) - set(got))} of {len(self.parts)}')
        m = self.ctx.open_model(self.epc)
        g = m.grid(uuid = self.uuid)
        if isinstance(g, grr.RegularGrid):
            g.make_regular_points_cached()
        gl.same_state(gl.grid_state(g), self.was, 'source grid in file afterwards', skip = ('points',))
        pc = g.extract_property_collection()
        got = [] if pc is None else sorted(pc.parts())
        ok(set(self.parts) <= set(got), 'properties gone from the source grid in file')
        ok(len(got) <= len(self.parts) + extra, f'{len(got) - len(self.parts)} properties added to the source grid in file')
        if self.parts:
            gp.inherited(pc, self.pc, self.vals, lambda f, a: a, 'source grid in file afterwards', absent_ok = (), others = [pc.citation_title_for_part(p) for p in got if p not in self.parts])

    def args(self, mo):
        """Arguments for source and destination and the epc file the new grid is to be found in."""
        new = self.ctx.path('extracted') if mo['new'] else None
        kw = dict(epc_file = self.epc if mo['given'] != 'grid' or new is None else None)
        if mo['given'] != 'epc':
            kw['source_grid'] = self.g
        else:
            self.g = None
        if new:
            kw['new_epc_file'] = new
        return kw, new or self.epc


def compare(g, src, box, what, title = None, active = None, window = None, cells = None, handed = True):
    """Checks a grid against the box of the source."""
    k0, j0, i0, k1, j1, i1 = [int(x) for x in np.array(box).flatten()]
    sl = np.s_[k0:k1 + 1, j0:j1 + 1, i0:i1 + 1]
    w = src.was
    n = (k1 - k0 + 1, j1 - j0 + 1, i1 - i0 + 1)
    eq(tuple(int(x) for x in g.extent_kji), n, f'{what}: extent')
    st_ = gl.grid_state(g)
    eq((int(g.nk), int(g.nj), int(g.ni)), n, f'{what}: nk, nj, ni')
    if title is not None:
        eq(g.title, title, f'{what}: title')
    arr_eq(st_['defined'], w['defined'][sl], f'{what}: cell geometry is defined')
    want = w['corners'][sl] if cells is None else cells[sl]
    for key in ('corners', 'corners again'):
        gl.same_state({key: st_[key]}, {key: want}, what, tol = 1e-5)
    arr_eq(st_['inactive'], w['inactive'][sl] if active is None else ~active, f'{what}: inactive cells')
    gaps = [] if w['gap_after'] is None else [k - k0 for k in range(k0, k1) if w['gap_after'][k]]
    got = [] if st_['gap_after'] is None else [int(k) for k in np.where(st_['gap_after'])[0]]
    eq(got, gaps, f'{what}: layers with a gap below')
    eq((st_['right'], st_['down']), (w['right'], w['down']), f'{what}: handedness and k direction')
    a, b = rqc.Crs(g.model, uuid = g.crs_uuid), rqc.Crs(src.pc.model if src.pc is not None else src.m, uuid = w['crs'])
    ok(a.is_equivalent(b), f'{what}: crs differs from that of the source grid')
    if window is not None:
        if window:
            fc = g.parent_window
            ok(fc is not None, f'{what}: no parent window')
            eq(str(g.parent_grid_uuid), str(src.uuid), f'{what}: parent grid')
            eq([tuple(int(x) for x in fc.fine_extent_kji), tuple(int(x) for x in fc.coarse_extent_kji)], [n, n], f'{what}: parent window extents')
            arr_eq(np.array(fc.within_coarse_box), np.array(box), f'{what}: parent window box')
        else:
            ok(g.parent_window is None, f'{what}: unwanted parent window')


def check_props(g, src, sel, what, inh):
    pc = g.extract_property_collection()
    if not src.parts:
        return
    if inh['inherit_properties']:
        gp.inherited(pc, src.pc, src.vals, sel, what, realization = inh['inherit_realization'],
                     all_realizations = inh['inherit_all_realizations'] or inh['inherit_realization'] is not None)
    elif pc is not None:
        ok(all(pc.property_kind_for_part(p) == 'active' for p in pc.parts()), f'{what}: properties present when none were to be inherited')


def selector(box):
    k0, j0, i0, k1, j1, i1 = [int(x) for x in np.array(box).flatten()]

    def sel(form, a):
        if form == 'columns':
            return a[j0:j1 + 1, i0:i1 + 1]
        if form == 'layers':
            return a[k0:k1 + 1]
        if form == 'nodes':
            return a[k0:k1 + 2, j0:j1 + 2, i0:i1 + 2]
        return a[k0:k1 + 1, j0:j1 + 1, i0:i1 + 1]
    return sel


def check_new(grid, epc, title, src, ctx, fn):
    """Applies checks to the grid returned and that found in the file."""
    fn(grid, 'grid returned')
    m = ctx.open_model(epc)
    uu = m.uuids(obj_type = 'IjkGridRepresentation', title = title)
    ok(any(str(u) == str(grid.uuid) for u in uu), 'new grid is not in the epc file')
    g = m.grid(uuid = grid.uuid, find_properties = True)
    fn(g, 'grid in file')
    for u in m.uuids():
        ok(m.root(uuid = u) is not None, 'part without xml')
    return m, g


# ------------------------------------------------------------------------------------------------ copy

@check('copy', st.fixed_dictionaries(dict(src = source, other = st.booleans())), quick = 60, thorough = 600, shards = 2, rule = 'grid with a fault, gap, inactive cell or undefined cell')
def copy(s, ctx):
    src = Source(s['src'], ctx)
    epc = ctx.path('copied') if s['other'] else src.epc
    tm = ctx.track(rq.new_model(epc)) if s['other'] else src.m
    g = rqdm.copy_grid(src.g, target_model = tm)
    if not src.regular:
        ctx.nontrivial()
    full = [[0, 0, 0], [x - 1 for x in src.n]]
    ok(g.model is tm, 'copy is not in the target model')
    ok(g.crs is not None and g.crs.model is tm, 'crs of the copy is not in the target model')
    compare(g, src, full, 'copy')
    # a copy is independent of the source
    g.write_hdf5()
    g.create_xml(title = 'copied')
    tm.store_epc()
    m = ctx.open_model(epc)
    h = m.grid(uuid = g.uuid)
    compare(h, src, full, 'copy in file', title = 'copied')
    g.points_ref(masked = False)[:] += 1.0
    if g.inactive is not None:
        g.inactive[:] = True
    if s['other']:
        src.unchanged()
    else:
        gl.same_state(gl.grid_state(src.g), src.was, 'source grid after its copy was edited', skip = ('points', 'extra'))


# ------------------------------------------------------------------------------------------------ box

@check('box', st.fixed_dictionaries(dict(src = source, at = st.lists(st.floats(0, 0.999), min_size = 6, max_size = 6), mode = mode, inherit = inherit, mask = st.sampled_from([None, None, 0.3]),
       window = st.sampled_from([None, None, True, False]), again = st.booleans())), quick = 130, thorough = 1500, shards = 3, rule = 'proper sub-box of a faulted, gapped or masked grid, or with properties inherited')
def box(s, ctx):
    src = Source(s['src'], ctx)
    b = np.array([[int(min(a, z) * n) for a, z, n in zip(s['at'][:3], s['at'][3:], src.n)], [int(max(a, z) * n) for a, z, n in zip(s['at'][:3], s['at'][3:], src.n)]])
    n = tuple(b[1] - b[0] + 1)
    given = b.copy()
    mask = None
    active = None
    sl = np.s_[b[0, 0]:b[1, 0] + 1, b[0, 1]:b[1, 1] + 1, b[0, 2]:b[1, 2] + 1]
    if s['mask'] is not None:
        mask = np.random.default_rng(s['src']['grid'].get('seed', 7)).random(n) < s['mask']
        active = ~(src.was['inactive'][sl] | mask)
    if n != src.n or src.parts:
        ctx.nontrivial()
    kw, epc = src.args(s['mode'])
    ctx.label('new epc' if s['mode']['new'] else 'same epc')
    g = rqdm.extract_box(box = given, box_inactive = None if mask is None else mask.copy(), set_parent_window = s['window'], new_grid_title = 'extract', **kw, **s['inherit'])
    arr_eq(given, b, 'box argument afterwards')
    window = (not s['mode']['new']) if s['window'] is None else s['window']
    if s['mode']['new'] and window:
        window = None  # the parent is not in the new model

    def fn(h, what):
        compare(h, src, b, what, 'extract', active, window)
        check_props(h, src, selector(b), what, s['inherit'])

    m, h = check_new(g, epc, 'extract', src, ctx, fn)
    src.unchanged()
    if s['again'] and not s['mode']['new'] and mask is None:
        # a box of the box is the box of the boxes' intersection
        c = np.array([[0, 0, 0], [x - 1 for x in n]])
        ax = int(np.argmax(n))
        c[0, ax] = n[ax] // 2
        g2 = rqdm.extract_box(epc_file = epc, source_grid = h, box = c, new_grid_title = 'twice', **s['inherit'])
        d = b[0] + c

        def fn2(h, what):
            compare(h, src, d, what + ', box of box', 'twice')
            check_props(h, src, selector(d), what + ', box of box', s['inherit'])
        check_new(g2, epc, 'twice', src, ctx, fn2)


# ------------------------------------------------------------------------------------------------ well

@check('well', st.fixed_dictionaries(dict(src = st.one_of(plain, plain, source), at = st.tuples(st.floats(0, 0.999), st.floats(0, 0.999), st.floats(0, 0.999), st.floats(0, 0.999)), how = st.sampled_from(['trajectory', 'blocked', 'xy', 'column']),
       layers = st.booleans(), radius = st.sampled_from([None, None, 15.0, 40.0]), outer = st.sampled_from([None, None, None, 30.0]), shape = st.sampled_from(['tube', 'prism', 'box']), mode = mode, inherit = inherit, window = st.sampled_from([None, True, False]),
       well = st.booleans())), quick = 160, thorough = 1800, shards = 4, rule = 'extracted box smaller than the source')
def well(s, ctx):
    src = Source(s['src'], ctx)
    nk, nj, ni = src.n
    j, i = int(s['at'][0] * nj), int(s['at'][1] * ni)
    corners = src.was['corners']
    col = corners[:, j, i]
    vertical = s['src']['grid'].get('tilt') is None and src.was['defined'].all()
    how = s['how']
    if how != 'column' and not vertical:
        how = 'column'
    ka, kb = (0, nk - 1) if not s['layers'] else sorted((int(s['at'][2] * nk), int(s['at'][3] * nk)))
    if how == 'blocked':
        ka, kb = 0, nk - 1
    if how in ('trajectory', 'blocked'):
        # zero thickness or inverted columns are no place for a wellbore intersection oracle
        if any(k in s['src']['grid'] for k in ('pinch', 'flip', 'noise', 'faults')):
            how = 'column'
    ctx.label(how)
    kw, epc = src.args(s['mode'])
    if s['layers']:
        kw.update(min_k0 = ka, max_k0 = kb)
    off = 0.02 if how in ('trajectory', 'blocked') else 0.0  # away from the point where the triangles of a face meet
    xy = (0.98 * np.mean(col[0, 0], axis = (0, 1)) + off * col[0, 0, 0, 0] + (0.02 - off) * np.mean(col[0, 0], axis = (0, 1)))[:2]
    if how == 'column':
        kw['column_ji0'] = (j, i)
    elif how == 'xy':
        kw['column_xy'] = tuple(float(v) for v in xy)
    else:
        zs = corners[..., 2]
        up = not s['src']['crs'].get('z_inc_down', True)
        zt, zb = np.nanmin(zs) - 10.0, np.nanmax(zs) + 10.0
        wm = ctx.open_model(src.epc)
        datum = rqw.MdDatum(wm, crs_uuid = src.was['crs'], location = (float(xy[0]), float(xy[1]), zb if up else zt), md_reference = 'kelly bushing')
        datum.create_xml()
        mds = np.array([0.0, 0.5 * (zb - zt), zb - zt])
        cps = np.array([[xy[0], xy[1], (zb - d) if up else (zt + d)] for d in mds])
        df = pd.DataFrame({'MD': mds, 'X': cps[:, 0], 'Y': cps[:, 1], 'Z': cps[:, 2]})
        t = rqw.Trajectory(wm, md_datum = datum, data_frame = df, well_name = 'well A', length_uom = 'm', set_tangent_vectors = False)
        t.write_hdf5()
        t.create_xml()
        uid = t.uuid
        if how == 'blocked':
            bw = rqw.BlockedWell(wm, grid = wm.grid(uuid = src.uuid), trajectory = t, use_face_centres = False, add_wellspec_properties = False)
            bw.write_hdf5()
            bw.create_xml()
            uid = bw.uuid
        wm.store_epc()
        kw['trajectory_uuid' if how == 'trajectory' else 'blocked_well_uuid'] = uid
        kw['trajectory_epc'] = src.epc
        if s['well']:
            kw['inherit_well'] = True
        if 'source_grid' in kw:
            src.m = ctx.open_model(src.epc)
            src.g = kw['source_grid'] = src.m.grid(uuid = src.uuid)
    outer = s['outer'] if s['outer'] is None or s['radius'] is None else max(s['outer'], s['radius'])
    if outer is not None:
        kw['outer_radius'] = outer
    g, b = rqdm.extract_box_for_well(radius = s['radius'], active_cells_shape = s['shape'], set_parent_window = s['window'], new_grid_title = 'for well', **kw, **s['inherit'])
    b = np.array(b)
    ok(b.shape == (2, 3) and np.all(b[0] >= 0) and np.all(b[0] <= b[1]) and np.all(b[1] < src.n), f'box returned is {b.tolist()}')
    eq([int(b[0, 0]), int(b[1, 0])], [ka, kb], 'layers in the box returned')
    ok(b[0, 1] <= j <= b[1, 1] and b[0, 2] <= i <= b[1, 2], f'box {b.tolist()} does not include the column of the well ({j}, {i})')
    if tuple(b[1] - b[0] + 1) != src.n:
        ctx.nontrivial()
    sl = np.s_[b[0, 0]:b[1, 0] + 1, b[0, 1]:b[1, 1] + 1, b[0, 2]:b[1, 2] + 1]
    act = ~src.was['inactive'][sl]
    # horizontal distances of cell centres from the well, for a vertical well
    if vertical:
        cen = np.mean(corners, axis = (3, 4, 5))
        d = np.sqrt(np.sum((cen[..., :2] - xy) ** 2, axis = -1))
        margin = 2.0 if how == 'blocked' else 0.05  # distances are from the centres of the penetrated cells for a blocked well
        inside = np.zeros(src.n, dtype = bool)
        inside[:, j, i] = True
        if s['radius'] is not None:
            inside |= d <= s['radius']
            clear = np.abs(d - s['radius']) > margin
        else:
            clear = np.ones(src.n, dtype = bool)
        inside[:ka] = inside[kb + 1:] = False
        where = np.argwhere(inside & clear)
        ok(np.all(where >= b[0]) and np.all(where <= b[1]), f'box {b.tolist()} leaves out cells within the radius of the well')
        if clear.all():
            arr_eq(b, np.array([where.min(axis = 0), where.max(axis = 0)]), 'box of the cells within the radius of the well')
            shaped = inside[sl]
            if s['shape'] == 'prism':
                shaped = np.broadcast_to(shaped.any(axis = 0), shaped.shape)
            elif s['shape'] == 'box':
                shaped = np.ones(shaped.shape, dtype = bool)
            act = act & shaped
        else:
            act = None
    elif s['radius'] is None:
        arr_eq(b, np.array([[ka, j, i], [kb, j, i]]), 'box for a column')
    elif s['shape'] != 'box':
        act = None
    window = (not s['mode']['new']) if s['window'] is None else s['window']
    if s['mode']['new'] and window:
        window = None

    def fn(h, what):
        a = act
        if a is None:
            a = ~gl.grid_state(h)['inactive']
            ok(not np.any(a & src.was['inactive'][sl]), f'{what}: inactive source cells are active')
        compare(h, src, b, what, 'for well', a, window)
        check_props(h, src, selector(b), what, s['inherit'])

    m, h = check_new(g, epc, 'for well', src, ctx, fn)
    if 'trajectory_epc' in kw and kw.get('inherit_well'):
        tu = m.uuids(obj_type = 'WellboreTrajectoryRepresentation')
        ok(len(tu) > 0, 'no trajectory in the model when the well was to be inherited')
        t2 = rqw.Trajectory(m, uuid = tu[0])
        arr_close(t2.control_points, cps, 1e-6, 'control points of the inherited trajectory')
        arr_close(t2.measured_depths, mds, 1e-6, 'measured depths of the inherited trajectory')
    if outer is not None:
        sg = m.grid(uuid = src.uuid) if m.root(uuid = src.uuid) is not None else None
        ok(sg is not None, 'source grid is not in the epc with the outer radius mask')
        pc = sg.extract_property_collection()
        new = [p for p in (pc.parts() if pc is not None else []) if pc.citation_title_for_part(p) not in src.vals and p not in src.parts]
        ok(len(new) == 1, f'{len(new)} new properties for the source grid with an outer radius')
        if vertical:
            got = np.array(pc.cached_part_array_ref(new[0], dtype = bool))
            clear = np.abs(d - outer) > margin
            clear[:ka] = clear[kb + 1:] = False  # the mask is made for the layers of the box
            arr_eq(got[clear], (d > outer)[clear], 'outer radius mask')
    src.unchanged(extra = 0 if outer is None else 1)


# ------------------------------------------------------------------------------------------------ unsplit

@check('unsplit', st.fixed_dictionaries(dict(src = source, mode = mode, inherit = inherit)), quick = 80, thorough = 900, shards = 2, rule = 'grid with split pillars')
def unsplit(s, ctx):
    src = Source(s['src'], ctx)
    if src.regular or not src.was['split']:
        s['src']['grid'].get('n')
        if src.regular:
            return
    w = src.was
    kw, epc = src.args(s['mode'])
    if not w['split']:
        if 'faults' not in s['src']['grid']:
            return
    else:
        ctx.nontrivial()
    if not w['split']:
        return
    g = rqdm.unsplit_grid(new_grid_title = 'healed', **kw, **s['inherit'])
    # corners at a pillar which is not split are those of the source
    c = w['corners']
    nk, nj, ni = src.n
    other = ctx.open_model(src.epc).grid(uuid = src.uuid)
    other.create_column_pillar_mapping()
    pfc = other.pillars_for_column.reshape((nj, ni, 4))
    used = {}
    for j in range(nj):
        for i in range(ni):
            for jp in (0, 1):
                for ip in (0, 1):
                    used.setdefault((j + jp, i + ip), set()).add(int(other.pillars_for_column[j, i, jp, ip]))
    split = {p for p, u in used.items() if len(u) > 1}

    def fn(h, what):
        st_ = gl.grid_state(h)
        eq(h.title, 'healed', f'{what}: title')
        eq(tuple(int(x) for x in h.extent_kji), src.n, f'{what}: extent')
        ok(not h.has_split_coordinate_lines, f'{what}: has split coordinate lines')
        arr_eq(st_['inactive'], w['inactive'], f'{what}: inactive cells')
        arr_eq(st_['defined'], w['defined'], f'{what}: cell geometry is defined')
        eq([] if st_['gap_after'] is None else st_['gap_after'].tolist(), [] if w['gap_after'] is None else w['gap_after'].tolist(), f'{what}: layers with gap below')
        eq((st_['right'], st_['down']), (w['right'], w['down']), f'{what}: handedness and k direction')
        nkp = nk + (w['k_gaps'] or 0) + 1
        eq(tuple(h.points_ref(masked = False).shape), (nkp, nj + 1, ni + 1, 3), f'{what}: shape of points')
        got = st_['corners']
        for j in range(nj):
            for i in range(ni):
                for jp in (0, 1):
                    for ip in (0, 1):
                        if (j + jp, i + ip) not in split:
                            a, b = got[:, j, i, :, jp, ip], c[:, j, i, :, jp, ip]
                            ok(np.all((np.abs(a - b) < 1e-5) | (np.isnan(a) & np.isnan(b))), f'{what}: corner of column ({j}, {i}) at a pillar without split differs from the source')
                        elif w['defined'].all():
                            # the healed point lies within the range of those it stands for
                            p = [(jj, ii, j + jp - jj, i + ip - ii) for jj in (j + jp - 1, j + jp) for ii in (i + ip - 1, i + ip) if 0 <= jj < nj and 0 <= ii < ni]
                            pts = np.array([c[:, jj, ii, :, a_, b_] for jj, ii, a_, b_ in p])
                            ok(np.all(got[:, j, i, :, jp, ip] >= pts.min(axis = 0) - 1e-5) and np.all(got[:, j, i, :, jp, ip] <= pts.max(axis = 0) + 1e-5), f'{what}: healed point is outside the range of the points at the split pillar')
        a, b = rqc.Crs(h.model, uuid = h.crs_uuid), rqc.Crs(ctx.open_model(src.epc), uuid = w['crs'])
        ok(a.is_equivalent(b), f'{what}: crs differs from that of the source grid')
        check_props(h, src, lambda f, a: a, what, s['inherit'])

    check_new(g, epc, 'healed', src, ctx, fn)
    src.unchanged()
