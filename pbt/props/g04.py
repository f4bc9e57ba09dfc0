"""Corner point arrays are generated (faults with constant and hinged throws, tilted and noisy pillars, layer gaps, voids and mismatches below the tolerances, pinched out, inactive, undefined and collapsed cells, flipped axes, z up) with importing options; the corner points, pillar sharing, layer gaps, masks and handedness of the resulting grid are compared with the generated model. Grids are written to simulator corner point files (units, global or local coordinates, headers, binary copies, other orderings written by the check itself) and imported.

Files hold three decimal places, so values read back are compared to that precision."""
import os
import struct
import numpy as np

import resqpy.model as rq
import resqpy.grid as grr
import resqpy.crs as rqc
import resqpy.rq_import as rqi
import resqpy.olio.grid_functions as gf
import resqpy.olio.load_data as ld
import resqpy.olio.write_data as wd
import resqpy.weights_and_measures as wam

from pbt.core import *
from pbt.lib.gen import *
from pbt.lib import grids as G

CP = st.fixed_dictionaries(dict(g = G.grid_specs(), up = st.booleans(), crs_xy = st.sampled_from(['m', 'ft']), small = st.sampled_from([0.0, 0.0, 0.04, 0.08]), mismatch = st.sampled_from([0.0, 0.0, 0.004]), void = st.sampled_from([0.1, 0.1, 2.0]),
                                tol = st.sampled_from([0.01, 0.01, 0.6]), hand = st.sampled_from(['right', 'left', 'auto', 'auto', None]), nan = st.sampled_from(['none', None, 'inactive', 'dots', 'ij_dots', 'morse', 'everywhere', 'values']),
                                straight = st.booleans(), split = st.booleans(), collapse = st.booleans(), stored = st.booleans()))


def columns(cp):
    """Corner points by pillar: list of (pillar j, pillar i, column j, column i, jp, ip)."""
    nj, ni = cp.shape[1:3]
    for j in range(nj + 1):
        for i in range(ni + 1):
            yield [(j - jp, i - ip, jp, ip) for jp in (0, 1) for ip in (0, 1) if 0 <= j - jp < nj and 0 <= i - ip < ni]


def near(a, b, tol, msg):
    arr_close(a, b, tol, msg)


@check('corners', CP, quick = 1200, thorough = 40000, shards = 8, rule = 'the grid is faulted, or has a gap, or cells without geometry')
def corners(spec, ctx):
    s = dict(spec['g'])
    if not spec['split']:
        s.pop('faults', None)
    cp, active, defined, gap_after = G.corner_model(s)
    rng = np.random.default_rng(s['seed'] + 7)
    nk, nj, ni = s['n']
    # layer gaps exist only where both cells are defined: recalculated below for the options
    if spec['up']:
        cp[..., 2] *= -1.0
    # small mismatches, below the tolerances
    big = np.zeros(nk, dtype = bool)
    base_cp = cp.copy()
    if spec['small'] and nk > 1 and spec['void'] < 1.0:
        k = int(rng.integers(0, nk - 1))
        cp[k + 1:, ..., 2] += spec['small'] * (-1.0 if spec['up'] else 1.0)
    if spec['mismatch']:
        noise = np.round(rng.random((nj, ni, 2, 2, 2)) * spec['mismatch'], 4)
        noise[..., 1] = 0.0
        cp[..., :2] += noise[None, :, :, None, :, :, :]
    mode = spec['nan']
    treat = None if mode in (None, 'everywhere', 'values') else mode
    everywhere = mode not in ('everywhere', 'values')
    keep = active.copy()  # cells whose geometry must survive
    lost = np.zeros_like(active)  # cells that must lose theirs
    inactive = ~active
    void = lambda mask: np.where(mask[..., None, None, None, None], np.nan, cp)
    if treat == 'inactive' and inactive.any():
        lost = inactive
    if spec['collapse'] and inactive.any() and treat in ('dots', 'ij_dots', 'morse'):
        dots = inactive & (rng.random(active.shape) < 0.7)
        cp[dots] = cp[dots][:, :1, :1, :1]
        lost = dots
        if nk > 1 and treat == 'dots':
            pass
    if mode == 'values' and inactive.any():
        lost = inactive & (rng.random(active.shape) < 0.7)
        cp = void(lost)
    if lost.all():
        return  # nothing left to make a grid from
    ref = cp.copy()
    m = ctx.new_model()
    crs = G.make_crs(m, dict(z_inc_down = not spec['up'], xy_units = spec['crs_xy']))
    kw = dict(max_z_void = spec['void'], split_tolerance = spec['tol'], split_pillars = spec['split'], ijk_handedness = spec['hand'], known_to_be_straight = spec['straight'])
    if not active.all():
        kw['active_mask'] = active.copy()
    mask_arg = kw.get('active_mask')
    if treat is not None:
        kw['treat_as_nan'] = treat
    if not everywhere:
        kw['geometry_defined_everywhere'] = False
    collapsed_active = False
    g = rqi.grid_from_cp(m, cp, crs.uuid, **kw)
    if mask_arg is not None:
        arr_eq(mask_arg, active, 'the active mask that was passed in was changed')
    if spec['stored']:
        g.write_hdf5()
        g.create_xml()
        m = ctx.reopen(m)
        g = grr.any_grid(m, uuid = g.uuid)
    # tolerances allow each point to move by half a closed void plus the split tolerance
    slack = 1e-6 + (0.5 * max(spec['small'], 0.0) + 1e-9) + (spec['mismatch'] if spec['mismatch'] else 0.0)
    if not spec['split']:
        slack += spec['small']  # only some of the columns around a pillar may have had a void closed
    if not spec['split'] and lost.any():
        both = ~lost[:-1] & ~lost[1:]
        apart = np.abs(cp[1:, :, :, 0] - cp[:-1, :, :, 1]).max(axis = (3, 4, 5))
        for k in range(nk - 1):
            if np.abs(base_cp[k + 1, :, :, 0] - base_cp[k, :, :, 1]).max() > spec['void'] and not np.any(both[k] & (apart[k] > spec['void'])):
                slack += 1.2  # the layers are apart, but not within any one column, so neither a gap nor split pillars can show it
    if spec['void'] > 1.0:
        slack += 1.2  # voids of 1.0 (with tilted pillars) are closed
    if spec['tol'] > 0.1:
        slack += 1.3  # throws of 0.5 are healed
    eq(tuple(int(n) for n in g.extent_kji), tuple(s['n']), 'extent')
    got_defined = g.cell_geometry_is_defined_ref()
    got_defined = np.ones_like(active) if got_defined is None else np.array(got_defined)
    ok(np.all(got_defined[keep]), f'{np.count_nonzero(keep & ~got_defined)} active cells have no geometry')
    ok(not np.any(got_defined[lost]) or mode == 'none' or treat is None and everywhere, f'{np.count_nonzero(lost & got_defined)} cells without geometry are said to have it')
    inact = g.extract_inactive_mask()
    inact = np.zeros_like(active) if inact is None else np.array(inact, dtype = bool)
    arr_eq(inact, inactive, 'the inactive mask')
    eq(int(g.cell_count(active_only = True)), int(active.sum()), 'the number of active cells')
    if not everywhere or treat is not None or True:
        known = keep.copy()
        if everywhere and treat is None or mode == 'none':
            known = np.ones_like(active)  # no cell loses its geometry
            ok(np.all(got_defined), 'cells have no geometry although geometry is defined everywhere')
    for how in ('first', 'from points'):
        got = np.ma.filled(np.ma.asarray(g.corner_points(), dtype = float), np.nan)
        near(got[known], ref[known], slack, f'corner points ({how})')
        if hasattr(g, 'array_corner_points'):
            del g.array_corner_points
    for cell in np.argwhere(known)[:3]:
        near(np.ma.filled(np.ma.asarray(g.corner_points(cell_kji0 = tuple(cell), cache_cp_array = False, cache_resqml_array = True), dtype = float), np.nan), ref[tuple(cell)], slack, f'corner points of cell {tuple(int(c) for c in cell)}')
    # layer gaps
    present = got_defined & ~lost
    if spec['void'] < 1.0:
        want_gap = []
        for k in range(nk - 1):
            both = (~lost[k]) & (~lost[k + 1]) if not (treat is None and not everywhere and mode == 'everywhere') else None
            if both is None:
                want_gap = None
                break
            d = np.abs(ref[k + 1, :, :, 0] - ref[k, :, :, 1])[both]
            if d.size and np.nanmax(d) > spec['void']:
                want_gap.append(k)
        if want_gap is not None and treat in (None, 'none', 'inactive'):
            eq([] if not g.k_gaps else [int(k) for k in np.where(g.k_gap_after_array)[0]], want_gap, 'layers with a gap below')
            eq(int(g.k_gaps or 0), len(want_gap), 'number of k gaps')
            if g.k_gaps:
                ctx.nontrivial()
                raw, x = [], 0
                for k in range(nk):
                    raw.append(x)
                    x += 2 if k in want_gap else 1
                eq([int(k) for k in g.k_raw_index_array], raw, 'raw indices of layers')
    else:
        eq(int(g.k_gaps or 0) if not any(gg[1] > 1.5 for gg in s.get('gaps', [])) else 0, 0, 'voids within the limit are closed')
    # pillar sharing
    if spec['split'] and spec['tol'] < 0.1:
        pfc = np.array(g.create_column_pillar_mapping())
        any_split = False
        full = np.ones_like(active) if np.array_equal(known, np.ones_like(active)) else known
        for cols in columns(cp):
            for a in range(len(cols)):
                for b in range(a):
                    (ja, ia, jpa, ipa), (jb, ib, jpb, ipb) = cols[a], cols[b]
                    va, vb = ref[:, ja, ia, :, jpa, ipa], ref[:, jb, ib, :, jpb, ipb]
                    both = full[:, ja, ia] & full[:, jb, ib]
                    d = np.abs(va - vb)[both]
                    differ = bool(d.size and d.max() > spec['tol'] + 2 * slack)
                    shared = pfc[ja, ia, jpa, ipa] == pfc[jb, ib, jpb, ipb]
                    if differ:
                        any_split = True
                        ok(not shared, f'columns {(ja, ia)} and {(jb, ib)} share a pillar where their corner points differ')
                    elif full.all() and not spec['mismatch'] and d.max() < 1e-9:
                        ok(shared, f'columns {(ja, ia)} and {(jb, ib)} do not share a pillar where their corner points agree')
        if any_split:
            ctx.nontrivial()
            ok(g.has_split_coordinate_lines, 'has_split_coordinate_lines is not set')
        elif full.all() and not spec['mismatch'] and slack < 0.1:
            ok(not g.has_split_coordinate_lines, 'has_split_coordinate_lines is set for an unfaulted grid')
        n_pillars = len(np.unique(pfc))
        eq(int(g.points_ref(masked = False).reshape(g.points_ref(masked = False).shape[0], -1, 3).shape[1]), n_pillars, 'number of coordinate lines in the points array')
    elif not spec['split']:
        ok(not g.has_split_coordinate_lines, 'a grid without split pillars was asked for')
    if lost.any():
        ctx.nontrivial()
    # handedness: k is taken to go down
    down = not ('k' in s.get('flip', ''))
    if spec['hand'] in ('left', 'right'):
        eq(bool(g.grid_is_right_handed), spec['hand'] == 'right', 'the handedness that was asked for')
    elif down or not (s.get('pinch') or lost.any()):
        flips = sum(c in 'ijk' for c in s.get('flip', ''))
        # x east, y north, k down: the axes i, j, k are left handed when i and j are along x and y
        eq(bool(g.grid_is_right_handed), flips % 2 == 1, 'the handedness worked out from the corner points')
    ok(g.crs is not None and str(g.crs_uuid) == str(crs.uuid), 'crs')
    eq(g.extract_pillar_shape() if spec['stored'] else g.pillar_shape, 'straight' if spec['straight'] else 'curved', 'pillar shape')


FILE = st.fixed_dictionaries(dict(g = G.grid_specs(max_k = 3, max_ji = 3), crs = st.sampled_from(['plain', 'offset', 'ft', 'mixed', 'up', 'up offset']), local = st.booleans(), unit = st.sampled_from([None, 'METRIC', 'ENGLISH', 'LAB']), keyword = st.booleans(), headers = st.booleans(),
                                  binary = st.sampled_from(['no', 'no', 'write', 'read', 'only']), res = st.sampled_from([('m', 'm'), ('ft', 'ft'), ('m', 'ft'), ('ft', 'm')]), flipz = st.booleans(), shift = st.sampled_from([None, None, 'centre', 'minimum']),
                                  extent = st.booleans(), order = st.sampled_from(['written', 'written', 'eight', 'bin']), mode = st.sampled_from(['w', 'w', 'a']), twice = st.booleans(), active = st.booleans(), gdown = st.booleans(), undef = st.sampled_from(['none', 'nan', 'value'])))
CRS = {'plain': {}, 'offset': dict(x_offset = 200.0, y_offset = -300.0, z_offset = 50.0), 'ft': dict(xy_units = 'ft', z_units = 'ft', x_offset = 100.0), 'mixed': dict(z_units = 'ft', y_offset = 30.0), 'up': dict(z_inc_down = False), 'up offset': dict(z_inc_down = False, x_offset = 50.0, z_offset = 20.0)}
METRES = {'m': 1.0, 'ft': 0.3048, 'cm': 0.01}


@check('files', FILE, quick = 600, thorough = 20000, shards = 8, rule = 'units or coordinates are converted, or another ordering or a binary copy is used')
def files(spec, ctx):
    s = dict(spec['g'])
    cp, active, defined, gap_after = G.corner_model(s)
    up = spec['crs'].startswith('up')
    if up:
        cp[..., 2] *= -1.0
    nk, nj, ni = s['n']
    m = ctx.new_model('source.epc')
    ckw = CRS[spec['crs']]
    crs = G.make_crs(m, ckw)
    have_nan = not defined.all()
    g = G.build(m, s, crs.uuid, cp = cp)
    defined = np.array(g.cell_geometry_is_defined_ref()) if g.cell_geometry_is_defined_ref() is not None else np.ones(tuple(s['n']), dtype = bool)
    G.store(g)
    m = ctx.reopen(m)
    g = grr.any_grid(m, uuid = g.uuid)
    xy, zu = crs.xy_units, crs.z_units
    # expected contents of the file
    want = cp.copy()
    gdown = spec['gdown'] or spec['local']
    if not spec['local']:
        want[..., 0] += ckw.get('x_offset', 0.0)
        want[..., 1] += ckw.get('y_offset', 0.0)
        if up == gdown:  # sense of z changes; the offset is added afterwards (as documented in the code)
            want[..., 2] *= -1.0
        want[..., 2] += ckw.get('z_offset', 0.0)
    unit = spec['unit']
    target = {'METRIC': 'm', 'ENGLISH': 'ft', 'LAB': 'cm', None: 'ft' if zu == 'ft' else 'm'}[unit]
    if target == 'cm':
        want = want / 1.0
    want[..., :2] *= METRES[xy] / METRES[target]
    want[..., 2] *= METRES[zu] / METRES[target]
    corp = ctx.path('grid.dat')
    sub = -999.25 if spec['undef'] == 'value' else None
    use_bin = spec['binary'] != 'no'
    g.write_nexus_corp(corp, local_coords = spec['local'], global_z_increasing_downward = gdown, nexus_unit_system = unit, write_corp_keyword = spec['keyword'], write_nx_ny_nz = spec['headers'] and spec['keyword'], write_units_keyword = spec['headers'] and spec['keyword'],
                       write_rh_keyword_if_needed = spec['headers'] and spec['keyword'], use_binary = use_bin, binary_only = False, nan_substitute_value = sub)
    if spec['headers'] and spec['keyword']:
        with open(corp) as f:
            words = f.read(2000).split('CORP VALUE')[0].split()
        i = words.index('NX')
        eq([words[i + 3], words[i + 4], words[i + 5]], [str(ni), str(nj), str(nk)], 'NX NY NZ in the file')
        ok((unit or {'ft': 'ENGLISH', 'm': 'METRIC'}[target]) in words, 'the unit system is not in the file')
        # xyz is right handed when z is up (x east, y north); RIGHTHANDED is needed if ijk has the handedness of xyz
        z_down = (not up) if spec['local'] else gdown
        eq('RIGHTHANDED' in words, bool(g.grid_is_right_handed) == (not z_down), 'RIGHTHANDED in the file')
    scale = float(np.nanmax(np.abs(want)))
    prec = 6e-4
    nan_cells = ~defined
    full = defined.all()
    # what the file holds
    raw = np.array([float(w) for w in _numbers(corp)]).reshape(nk, nj, ni, 2, 2, 2, 3)
    seq = want.copy()
    seq[:, :, :, :, 1, 0], seq[:, :, :, :, 1, 1] = want[:, :, :, :, 1, 1], want[:, :, :, :, 1, 0]
    near(raw[defined], seq[defined], prec + 1e-9 * scale, 'numbers in the corner point file')
    if sub is not None and not full:
        ok(not np.isnan(raw).any(), 'a NaN is in the file although a value was given for it')
    if not full and sub is not None:
        pass
    if not full and spec['order'] != 'written':
        return
    # import
    kw = {}
    src = corp
    if spec['order'] == 'eight':
        src = ctx.path('eight.dat')
        e = np.moveaxis(want.reshape(nk, nj, ni, 8, 3), -1, -2)  # x of all corners, then y, then z
        with open(src, 'w') as f:
            f.write('! eight\n\n' + '\n'.join(' '.join(f'{v:.3f}' for v in row) for row in e.reshape(-1, 8)) + '\n')
        kw['corp_eight_mode'] = True
        ctx.nontrivial()
    elif spec['order'] == 'bin':
        src = ctx.path('corp.bin')
        with open(src, 'wb') as f:
            for row in seq.reshape(-1, 24):
                f.write(struct.pack('>i', 96) + struct.pack('>24f', *row) + struct.pack('>i', 96))
        prec += 1e-6 * scale
        ctx.nontrivial()
    rx, rz = spec['res']
    z_file_down = (not up) if spec['local'] else gdown
    r_down = z_file_down != spec['flipz']
    exp = want.copy()
    exp[..., :2] *= METRES[target] / METRES[rx]
    exp[..., 2] *= METRES[target] / METRES[rz]
    if spec['flipz']:
        exp[..., 2] *= -1.0
    if target != rx or rx != rz or spec['flipz'] or not spec['local'] or use_bin:
        ctx.nontrivial()
    args = dict(extent_ijk = (ni, nj, nk), corp_xy_units = target, corp_z_units = target, corp_z_inc_down = z_file_down, resqml_xy_units = rx, resqml_z_units = rz, resqml_z_inc_down = r_down, ijk_handedness = 'right' if g.grid_is_right_handed else 'left')
    args['corp_bin_file' if spec['order'] == 'bin' else 'corp_file'] = src
    args.update(kw)
    if spec['shift']:
        args.update(shift_to_local = True, local_origin_place = spec['shift'])
    masked = (~active).any() and (spec['active'] or not full)
    if masked:
        am = ctx.path('active.dat')
        wd.write_array_to_ascii_file(am, tuple(s['n']), active, data_type = 'bool')
        args['active_mask_file'] = am
        if not full:
            args['treat_as_nan'] = 'inactive'
    if spec['binary'] == 'read':
        args['use_binary'] = True
    root = ctx.path('imported')
    if spec['mode'] == 'a':
        prior = rq.new_model(root + '.epc')
        prior.store_epc(quiet = True)
        prior.h5_release()
        args['mode'] = 'a'
    gap = 0.1 * METRES[zu] / METRES[rz] * (1.0 if target != 'cm' else 1.0)
    args['max_z_void'] = max(gap, 0.05)
    for n in range(2 if spec['twice'] and spec['mode'] == 'w' else 1):
        im = rqi.import_nexus(root + str(n) if n else root, **args)
        ctx.track(im)
        mm = ctx.open_model((root + str(n) if n else root) + '.epc')
        ug = mm.uuids(obj_type = 'IjkGridRepresentation')
        eq(len(ug), 1, 'number of grids in the imported model')
        h = grr.any_grid(mm, uuid = ug[0])
        eq(tuple(int(x) for x in h.extent_kji), tuple(s['n']), 'extent of the imported grid')
        eq(mm.title(uuid = ug[0]), 'ROOT', 'title of the imported grid')
        hc = h.crs
        eq((hc.xy_units, hc.z_units, bool(hc.z_inc_down)), (rx, rz, r_down), 'crs of the imported grid')
        org = np.array([hc.x_offset, hc.y_offset, hc.z_offset])
        if not spec['shift']:
            near(org, np.zeros(3), 1e-9, 'offset of the crs of the imported grid')
        got = np.ma.filled(np.ma.asarray(h.corner_points(), dtype = float), np.nan)
        rt = 0.02 + prec * METRES[target] / min(METRES[rx], METRES[rz]) + 2e-9 * scale
        if spec['order'] == 'bin':
            rt += 4e-7 * scale
        keep = active if masked and not full else np.ones_like(active)
        near((got + org)[keep], exp[keep], rt, f'corner points of the imported grid ({spec["order"]})')
        if spec['shift'] == 'minimum':
            lo = np.nanmin(got[keep].reshape(-1, 3), axis = 0)
            ok(np.all(lo > 0.9) and (not full or np.all(lo < 1.1)), f'local minimum is {lo}, expected 1.0')
        elif spec['shift'] == 'centre' and full:
            ok(np.all(np.abs(got.reshape(-1, 3).mean(axis = 0)) < 0.1), 'the local origin is not at the centre')
        inact = h.extract_inactive_mask()
        inact = np.zeros_like(active) if inact is None else np.array(inact, dtype = bool)
        arr_eq(inact, ~active if masked else np.zeros_like(active), 'inactive cells of the imported grid')
        eq(bool(h.grid_is_right_handed), bool(g.grid_is_right_handed), 'handedness of the imported grid')
        if full and rt < 0.1 and not s.get('tilt') and not s.get('noise') and spec['order'] == 'written' and rx == xy and rz == zu:
            arr_eq(_groups(np.array(h.create_column_pillar_mapping())), _groups(np.array(g.create_column_pillar_mapping())), 'sharing of pillars in the imported grid')
            eq(int(h.k_gaps or 0), int(g.k_gaps or 0), 'k gaps of the imported grid')


def _groups(a):
    """Labels in order of first appearance."""
    seen = {}
    return np.array([seen.setdefault(int(x), len(seen)) for x in a.flatten()]).reshape(a.shape)


def _numbers(path):
    with open(path) as f:
        text = f.read()
    if 'CORP VALUE' in text:
        text = text.split('CORP VALUE', 1)[1]
    for line in text.split('\n'):
        line = line.split('!')[0]
        for w in line.split():
            yield w


ORD = st.fixed_dictionaries(dict(g = G.grid_specs(max_k = 3, max_ji = 3, undefined = False), eight = st.booleans(), shift = st.tuples(fl(-50, 50), fl(-50, 50)), left = st.booleans()))


@check('functions', ORD, quick = 250, thorough = 15000, shards = 4, rule = 'the grid is faulted or flipped')
def functions(spec, ctx):
    s = spec['g']
    cp, _, _, _ = G.corner_model(s)
    if s.get('faults') or s.get('flip'):
        ctx.nontrivial()
    # reordering there and back
    a = cp.copy()
    gf.resequence_nexus_corp(a, eight_mode = spec['eight'], undo = True)
    if spec['eight']:
        want = np.moveaxis(cp.reshape(cp.shape[:3] + (8, 3)), -1, -2).reshape(cp.shape)
    else:
        want = cp.copy()
        want[:, :, :, :, 1] = cp[:, :, :, :, 1, ::-1]
    arr_eq(a, want, f'simulator order, eight mode {spec["eight"]}')
    gf.resequence_nexus_corp(a, eight_mode = spec['eight'], undo = False)
    arr_eq(a, cp, f'simulator order undone, eight mode {spec["eight"]}')
    # handedness
    if not s.get('pinch'):
        flips = len(s.get('flip', ''))
        xyz_left = spec['left']
        got = gf.determine_corp_ijk_handedness(cp.copy(), xyz_is_left_handed = xyz_left)
        same = flips % 2 == 0
        eq(got, 'left' if same == xyz_left else 'right', 'determine_corp_ijk_handedness')
        # extent
        if not s.get('faults') and not s.get('gaps') and not s.get('inactive') and min(s['n']) > 1:
            flat = cp.reshape((1, 1, -1, 2, 2, 2, 3)).copy()
            eq(list(gf.determine_corp_extent(flat)), list(s['n']), 'determine_corp_extent')
    # translation
    a = cp.copy()
    gf.translate_corp(a, x_shift = spec['shift'][0], y_shift = spec['shift'][1])
    near(a, cp + np.array(list(spec['shift']) + [0.0]), 1e-9, 'translate_corp')
