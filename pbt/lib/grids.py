"""Corner point grids described by a small specification, with the corner points worked out here independently of resqpy.

The model of a grid is its full array of corner points (nk, nj, ni, 2, 2, 2, 3), an active mask and a mask of cells with
defined geometry.  Pillars may be tilted, columns displaced by faults along the pillars, layers separated by gaps, cells
pinched out at some of their pillars, cells inactive or without geometry.
"""
import numpy as np
from hypothesis import strategies as st

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.grid as grr
import resqpy.property as rqp
import resqpy.rq_import as rqi

from pbt.lib.gen import *


@st.composite
def grid_specs(draw, max_k = 4, max_ji = 4, faults = True, gaps = True, undefined = True, inactive = True, pinch = True, noise = True, tilt = True, flip = True, min_ji = 1):
    nk = draw(st.integers(1, max_k))
    nj, ni = draw(st.integers(min_ji, max_ji)), draw(st.integers(min_ji, max_ji))
    s = {'n': [nk, nj, ni], 'd': [draw(st.sampled_from([10.0, 25.0])), draw(st.sampled_from([10.0, 40.0])), draw(st.sampled_from([2.0, 5.0]))],
         'o': [draw(st.sampled_from([0.0, 1000.0])), draw(st.sampled_from([0.0, -500.0])), draw(st.sampled_from([0.0, 2000.0]))], 'seed': draw(seeds)}
    if noise and draw(st.booleans()):
        s['noise'] = draw(st.sampled_from([[0.1, 0.0], [0.0, 0.3], [0.15, 0.3]]))  # xy and z, as fractions of cell size
    if tilt and draw(st.booleans()):
        s['tilt'] = [draw(st.sampled_from([0.0, 0.5, -0.3])), draw(st.sampled_from([0.0, 0.2]))]
    if faults and draw(st.booleans()):
        fs = []
        for _ in range(draw(st.integers(1, 3))):
            ax = draw(st.sampled_from('ji'))
            n, o = (nj, ni) if ax == 'j' else (ni, nj)
            if n > 1:
                lo = draw(st.integers(0, o - 1))
                fs.append([ax, draw(st.integers(1, n - 1)), draw(st.sampled_from([1.0, -2.0, 3.5, 20.0, 0.5])), lo, draw(st.integers(lo + 1, o)), draw(st.sampled_from([0, 0, 1]))])
        if fs:
            s['faults'] = fs
    if gaps and nk > 1 and draw(st.booleans()):
        s['gaps'] = [[k, draw(st.sampled_from([1.0, 3.0]))] for k in draw(st.lists(st.integers(0, nk - 2), min_size = 1, max_size = 2, unique = True))]
        s['gap_part'] = draw(st.booleans())
    if pinch and draw(st.booleans()):
        s['pinch'] = draw(st.sampled_from([0.3, 0.6]))
        s['pinch_cells'] = draw(st.booleans())
    if inactive and draw(st.booleans()):
        s['inactive'] = draw(st.sampled_from([0.2, 0.5]))
        if undefined and draw(st.booleans()):
            s['undefined'] = True
    if flip and draw(st.booleans()):
        s['flip'] = draw(st.sampled_from(['i', 'j', 'ij', 'k', 'ik']))
    return s


def corner_model(s):
    """Returns (corner points, active mask, defined mask, indices of layers with a gap below) for a specification."""
    nk, nj, ni = s['n']
    dx, dy, dz = s['d']
    rng = np.random.default_rng(s['seed'])
    nxy, nz = s.get('noise', (0.0, 0.0))
    fi, fj, fk = (c in s.get('flip', '') for c in 'ijk')
    base = np.zeros((nj + 1, ni + 1, 2))
    base[..., 0] = s['o'][0] + dx * np.arange(ni + 1)[None, :] * (-1 if fi else 1)
    base[..., 1] = s['o'][1] + dy * np.arange(nj + 1)[:, None] * (-1 if fj else 1)
    base += (rng.random(base.shape) - 0.5) * nxy * np.array([dx, dy])
    base = np.round(base, 3)
    slope = s.get('tilt', (0.0, 0.0))
    top = s['o'][2] + np.round((rng.random((nj + 1, ni + 1)) - 0.5) * nz * dz, 2)
    throw = np.zeros((nj, ni, 2, 2))  # displacement of each corner of each column
    for ax, at, t, lo, hi, *hinge in s.get('faults', []):
        if ax == 'j':
            w = [[(i + ip - lo) / (hi - lo) for ip in (0, 1)] for i in range(lo, hi)]
            throw[at:, lo:hi] += t * (np.array(w)[None, :, None, :] if hinge and hinge[0] else 1.0)
        else:
            w = [[(j + jp - lo) / (hi - lo) for jp in (0, 1)] for j in range(lo, hi)]
            throw[lo:hi, at:] += t * (np.array(w)[:, None, :, None] if hinge and hinge[0] else 1.0)
    gaps = dict((k, g) for k, g in s.get('gaps', []))
    cp = np.zeros((nk, nj, ni, 2, 2, 2, 3))
    z = top.copy()
    gap_after = []
    sign = -1.0 if fk else 1.0
    for k in range(nk):
        t = np.full(z.shape, dz)
        if nz:
            t += np.round((rng.random(z.shape) - 0.5) * nz * dz, 2)
        if s.get('pinch'):
            pm = rng.random(z.shape) < s['pinch']
            if s.get('pinch_cells') and rng.random() < 0.5:
                a, b = rng.integers(0, nj), rng.integers(0, ni)
                pm[a:a + 2, b:b + 2] = True
            t[pm] = 0.0
        zb = z + sign * t
        for kp, zz in ((0, z), (1, zb)):
            for jp in (0, 1):
                for ip in (0, 1):
                    zc = zz[jp:jp + nj, ip:ip + ni] + throw[:, :, jp, ip]
                    cp[k, :, :, kp, jp, ip, 2] = zc
        z = zb
        if k in gaps:
            g = np.full(z.shape, gaps[k])
            if s.get('gap_part'):
                g[rng.random(z.shape) < 0.5] = 0.0
                g[0, 0] = gaps[k]
            z = z + sign * g
            gap_after.append(k)
    for jp in (0, 1):
        for ip in (0, 1):
            for a in (0, 1):
                cp[:, :, :, :, jp, ip, a] = base[None, jp:jp + nj, ip:ip + ni, None, a] + slope[a] * (cp[:, :, :, :, jp, ip, 2] - s['o'][2])
    active = np.ones((nk, nj, ni), dtype = bool)
    gap_made = gap_after
    if s.get('inactive'):
        active = rng.random((nk, nj, ni)) >= s['inactive']
        if not active.any():
            active[0, 0, 0] = True
    defined = active.copy() if s.get('undefined') else np.ones((nk, nj, ni), dtype = bool)
    # a gap is only known about where the cells both above and below it are defined
    gap_after = [k for k in gap_made if np.any((np.abs(cp[k + 1, :, :, 0] - cp[k, :, :, 1]) > 0.1)[defined[k] & defined[k + 1]])]
    return cp, active, defined, gap_after


def handedness(s, z_inc_down):
    # without flips the ijk axes have the directions of xyz, which is left handed when z is depth
    return 'right' if z_inc_down == bool(len(s.get('flip', '')) % 2) else 'left'


def make_crs(m, kw = None):
    crs = rqc.Crs(m, **(kw or {}))
    crs.create_xml()
    return crs


def build(m, s, crs_uuid = None, cp = None, **kw):
    """Returns a Grid for the specification, in memory (no xml or hdf5 yet)."""
    if crs_uuid is None:
        crs_uuid = make_crs(m).uuid
    mcp, active, defined, _ = corner_model(s)
    args = dict(ijk_handedness = handedness(s, rqc.Crs(m, uuid = crs_uuid).z_inc_down), max_z_void = 0.1)
    if not active.all():
        args['active_mask'] = active.copy()
    if not defined.all():
        args['treat_as_nan'] = 'inactive'
    args.update(kw)
    return rqi.grid_from_cp(m, (mcp if cp is None else cp).copy(), crs_uuid, **args)


def store(g, title = None, lines = False, **kw):
    """Write the arrays and xml of a grid, including its active cell property."""
    g.write_hdf5(use_parametric_lines = lines)
    g.create_xml(title = title, use_parametric_lines = lines, **kw)
    return g


# ---------------------------------------------------------------- parent windows

@st.composite
def window_specs(draw, n_max = 3):
    """A parent grid extent, a box within it and the numbers of cells that each axis is refined or coarsened by."""
    kind = draw(st.sampled_from(['refine', 'coarsen', 'same']))
    axes = []
    for _ in range(3):
        n = draw(st.integers(1, n_max))  # coarse cells
        a = {'n': n, 'lo': draw(st.integers(0, 2)), 'hi': draw(st.integers(0, 2))}
        mode = 'one' if kind == 'same' else draw(st.sampled_from(['one', 'const', 'vector', 'ones']))
        if mode == 'const':
            a['r'] = draw(st.integers(2, 3))
        elif mode == 'vector':
            a['v'] = draw(st.lists(st.integers(1, 3), min_size = n, max_size = n))
        elif mode == 'ones':
            a['v'] = [1] * n
        if kind == 'refine' and mode in ('const', 'vector') and draw(st.booleans()):
            a['p'] = True
        axes.append(a)
    return {'kind': kind, 'axes': axes, 'nobox': draw(st.integers(0, 5)) == 0}


def window_ratios(a):
    return list(a['v']) if 'v' in a else [a.get('r', 1)] * a['n']


def window_parent_extent(w):
    """The extent of the parent grid, and of the local grid, for a parent window specification."""
    coarse = [a['n'] for a in w['axes']]
    fine = [sum(window_ratios(a)) for a in w['axes']]
    own, other = (coarse, fine) if w['kind'] == 'coarsen' else (fine, coarse)
    pad = [0 if w['nobox'] else a['lo'] + a['hi'] for a in w['axes']]
    return [n + p for n, p in zip(other, pad)], own


def window_proportions(a):
    """List of vectors, for each coarse cell the fractions for its fine cells."""
    out = []
    for k, r in enumerate(window_ratios(a)):
        v = np.arange(1, r + 1, dtype = float) + 0.25 * k if a.get('p') else np.ones(r)
        out.append(v / v.sum())
    return out


def make_window(w):
    import resqpy.olio.fine_coarse as fc
    coarse = [a['n'] for a in w['axes']]
    fine = [sum(window_ratios(a)) for a in w['axes']]
    box = None
    if not w['nobox']:
        other = fine if w['kind'] == 'coarsen' else coarse
        box = np.array([[a['lo'] for a in w['axes']], [a['lo'] + n - 1 for a, n in zip(w['axes'], other)]], dtype = int)
    f = fc.FineCoarse(fine, coarse, **({} if box is None else {'within_fine_box' if w['kind'] == 'coarsen' else 'within_coarse_box': box}))
    for x, a in enumerate(w['axes']):
        if 'v' in a:
            f.set_ratio_vector(x, np.array(a['v'], dtype = int))
        else:
            f.set_constant_ratio(x)
        if a.get('p'):
            f.set_proportions_list_of_vectors(x, window_proportions(a))
        else:
            f.set_equal_proportions(x)
    return f


def window_state(f, refinement):
    if f is None:
        return None
    box = f.within_coarse_box if refinement else f.within_fine_box
    ext = f.coarse_extent_kji if refinement else f.fine_extent_kji
    return dict(fine = [int(x) for x in f.fine_extent_kji], coarse = [int(x) for x in f.coarse_extent_kji],
                box = [[0, 0, 0], [int(x) - 1 for x in ext]] if box is None else np.array(box).astype(int).tolist(),
                ratios = [[int(f.ratio(x, c)) for c in range(f.coarse_extent_kji[x])] for x in range(3)],
                proportions = [[round(float(v), 9) for v in f.proportions_for_axis(x)] for x in range(3)])


# ---------------------------------------------------------------- the state of a grid

def nan_masked(a):
    if a is None:
        return None
    return np.ma.filled(np.ma.asarray(a, dtype = float), np.nan) if isinstance(a, np.ma.MaskedArray) else np.array(a, dtype = float)


def grid_state(g):
    """Everything that storage of a grid should preserve, as a dictionary of plain values and numpy arrays."""
    n = tuple(int(x) for x in g.extent_kji)
    defined = g.cell_geometry_is_defined_ref()
    defined = np.ones(n, dtype = bool) if defined is None or defined is True else np.array(defined, dtype = bool)
    pillars = g.pillar_geometry_is_defined_ref()
    if pillars is None or pillars is True:
        pillars = np.ones((n[1] + 1, n[2] + 1), dtype = bool)
    inactive = g.extract_inactive_mask()
    s = dict(extent = n, nkji = (int(g.nk), int(g.nj), int(g.ni)), k_gaps = int(g.k_gaps or 0), gap_after = None if not g.k_gaps else np.array(g.k_gap_after_array, dtype = bool),
             raw = np.array(g.k_raw_index_array, dtype = int) if g.k_gaps else None, right = bool(g.grid_is_right_handed), down = bool(g.k_direction_is_down), shape = g.pillar_shape,
             split = bool(g.has_split_coordinate_lines), crs = str(g.crs_uuid), defined = defined, pillars = np.array(pillars, dtype = bool),
             inactive = np.zeros(n, dtype = bool) if inactive is None else np.array(inactive, dtype = bool), time = g.time_index, series = str(g.time_series_uuid), parent = str(g.parent_grid_uuid), refinement = None if g.is_refinement is None else bool(g.is_refinement),
             window = window_state(g.parent_window, g.is_refinement), strat = str(g.stratigraphic_column_rank_uuid), units = None if g.stratigraphic_units is None else [int(x) for x in g.stratigraphic_units],
             interp = str(g.represented_interpretation_uuid), title = g.title, extra = dict(g.extra_metadata or {}), active = str(g.active_property_uuid))
    cp = nan_masked(g.corner_points())
    s['corners'] = np.where(defined[..., None, None, None, None], cp, np.nan)
    if hasattr(g, 'array_corner_points'):
        del g.array_corner_points
    s['corners again'] = np.where(defined[..., None, None, None, None], nan_masked(g.corner_points()), np.nan)
    s['points'] = nan_masked(g.points_ref(masked = False))
    return s


def same_state(got, want, what, skip = (), tol = 1e-6):
    from pbt.core import ok, fail
    for k, w in want.items():
        if k in skip:
            continue
        v = got[k]
        if isinstance(w, np.ndarray) and isinstance(v, np.ndarray):
            ok(v.shape == w.shape, f'{what}: {k} has shape {v.shape}, expected {w.shape}')
            if w.dtype == bool or w.dtype.kind in 'iu':
                good = v == w
            else:
                good = (np.abs(v - w) <= tol) | (np.isnan(v) & np.isnan(w))
            if not good.all():
                at = tuple(int(x) for x in np.argwhere(~good)[0])
                fail(f'{what}: {k} at {at} is {v[at]}, expected {w[at]} ({int((~good).sum())} of {good.size} differ)')
        else:
            ok(type(v) == type(w) and v == w, f'{what}: {k} is {v!r}, expected {w!r}')
