"""property-based testing: refined and coarsened grids against trilinear subdivision, outer corners and totals worked out here

Source grids (faults, gaps, pinched, inactive and undefined cells, tilted and uneven) are refined by constant or varying
ratios with equal or uneven proportions: corners of fine cells are compared with trilinear interpolation within their
source cell, properties with those of the source cell (extensive ones shared out).  Coarsened grids are compared with the
outer corners of the fine cells, intensive properties with the range of the fine values and with the conservation of
volumes, extensive ones with totals.  Refining then coarsening is compared with the source.
"""
import numpy as np
from hypothesis import strategies as st

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.grid as grr
import resqpy.property as rqp
import resqpy.derived_model as rqdm
import resqpy.olio.fine_coarse as rqfc

from pbt.core import *
from pbt.lib.gen import *
from pbt.lib import grids as gl
from pbt.lib import gprops as gp

FORMS = ['cont', 'disc', 'cat', 'const', 'iconst', 'time', 'facet', 'real', 'bool', 'points', 'count', 'columns', 'layers', 'rocktype', 'codes']
MORE = ['ntg', 'sat', 'perm', 'rv', 'pv', 'dz', 'dx', 'dy', 'cdz']
axis = st.fixed_dictionaries(dict(mode = st.sampled_from(['const', 'vector', 'one', 'const']), r = st.integers(1, 3), v = st.lists(st.integers(1, 3), min_size = 6, max_size = 6), p = st.booleans()))
axes = st.tuples(axis, axis, axis)
more = st.lists(st.fixed_dictionaries(dict(form = st.sampled_from(MORE), seed = seeds)), max_size = 4, unique_by = lambda p: p['form'])
inherit = st.fixed_dictionaries(dict(inherit_properties = st.sampled_from([True, True, True, False]), inherit_realization = st.sampled_from([None, None, 0, 1]), inherit_all_realizations = st.booleans()))
mode = st.fixed_dictionaries(dict(given = st.sampled_from(['epc', 'grid', 'grid epc']), new = st.booleans()))
CRS = [{}, {'z_inc_down': False}, {'xy_units': 'ft', 'z_units': 'm', 'x_offset': 100.0}]


def ratios(a, n, coarse_is_n = True):
    """List of numbers of fine cells in each coarse cell, for n coarse cells (or n fine cells)."""
    if coarse_is_n:
        return {'one': [1] * n, 'const': [a['r']] * n, 'vector': (a['v'] * n)[:n]}[a['mode']]
    if a['mode'] == 'one':
        return [1] * n
    if a['mode'] == 'const':
        r = a['r'] if n % a['r'] == 0 else n
        return [r] * (n // r)
    out = []
    for v in a['v'] * n:
        out.append(min(v, n - sum(out)))
        if sum(out) == n:
            return out


def proportions(a, rs):
    out = []
    for k, r in enumerate(rs):
        v = np.arange(1, r + 1, dtype = float) + 0.25 * k if a['p'] else np.ones(r)
        out.append(v / v.sum())
    return out


def mapping(ax, rs):
    f = rqfc.FineCoarse([sum(r) for r in rs], [len(r) for r in rs])
    for x, (a, r) in enumerate(zip(ax, rs)):
        if len(set(r)) == 1 and a['mode'] != 'vector':
            f.set_constant_ratio(x)
        else:
            f.set_ratio_vector(x, np.array(r, dtype = int))
        if a['p']:
            f.set_proportions_list_of_vectors(x, proportions(a, r))
        else:
            f.set_equal_proportions(x)
    return f


def coarse_of(rs):
    return [np.repeat(np.arange(len(r)), r) for r in rs]


def add_more(m, g, n, specs, sizes):
    """Properties of kinds which matter to refinement and coarsening; returns {title: (form, array)}."""
    out = {}
    vol = np.prod(sizes)
    for p in specs:
        rng = np.random.default_rng(p['seed'])
        a = np.round(rng.uniform(0.2, 0.9, n), 3)
        f = p['form']
        kw = {'ntg': dict(property_kind = 'net to gross ratio', uom = 'm3/m3'), 'sat': dict(property_kind = 'saturation', uom = 'm3/m3', facet_type = 'what', facet = 'water'),
              'perm': dict(property_kind = 'rock permeability', uom = 'mD', facet_type = 'direction', facet = 'K'), 'rv': dict(property_kind = 'rock volume', uom = 'm3', facet_type = 'netgross', facet = 'gross'),
              'pv': dict(property_kind = 'pore volume', uom = 'm3')}.get(f)
        if kw is None:
            kw = dict(property_kind = 'cell length', uom = 'm', facet_type = 'direction', facet = {'z': 'K', 'y': 'J', 'x': 'I'}[f[-1]])
            a = np.round(a * 10.0, 3)
        if f in ('rv', 'pv'):
            a = np.round(a * vol, 3)
        if f == 'cdz':
            a = np.full(n, 2.5)
            kw['const_value'] = 2.5
        rqp.Property.from_array(m, cached_array = None if 'const_value' in kw else a, source_info = 'generated', keyword = f, support_uuid = g.uuid, **kw)
        out[f] = (f, a, None)
    return out


class Source:

    def __init__(self, gs, crs, props, extra, ctx, prop_filter = lambda p: True):
        self.ctx = ctx
        self.epc = ctx.path('source')
        m = ctx.track(rq.new_model(self.epc))
        c = gl.make_crs(m, crs)
        if 'regular' in gs:
            g = grr.RegularGrid(m, extent_kji = tuple(gs['regular']), dxyz = (10.0, 20.0, 5.0), crs_uuid = c.uuid, title = 'ROOT', as_irregular_grid = gs['explicit'])
            if gs['explicit']:
                g.write_hdf5()
            g.create_xml(add_cell_length_properties = False)
            ctx.label('regular')
            self.gap_after = []
        else:
            g = gl.build(m, gs, c.uuid)
            gl.store(g, title = 'ROOT')
            for k in ('faults', 'gaps', 'undefined', 'inactive', 'pinch'):
                if k in gs:
                    ctx.label(k)
        self.n = tuple(int(x) for x in g.extent_kji)
        ts, sl = gp.supports(m)
        self.vals = gp.make(m, g, self.n, props, ts, sl)
        self.more = add_more(m, g, self.n, extra, (10.0, 20.0, 5.0))
        self.all = dict(self.vals, **self.more)
        m.store_epc()
        self.uuid = g.uuid
        self.m = ctx.open_model(self.epc)
        self.g = self.m.grid(uuid = g.uuid)
        other = ctx.open_model(self.epc)
        og = other.grid(uuid = g.uuid)
        if isinstance(og, grr.RegularGrid):
            og.make_regular_points_cached()
        self.was = gl.grid_state(og)
        self.pc = og.extract_property_collection()
        self.crs = rqc.Crs(other, uuid = og.crs_uuid)
        self.vol = np.array(og.volume()) if self.was['defined'].all() else None

    def args(self, mo):
        new = self.ctx.path('derived') if mo['new'] else None
        kw = dict(epc_file = self.epc if mo['given'] != 'grid' or new is None else None, source_grid = self.g if mo['given'] != 'epc' else None)
        if new:
            kw['new_epc_file'] = new
        return kw, new or self.epc

    def unchanged(self):
        m = self.ctx.open_model(self.epc)
        g = m.grid(uuid = self.uuid)
        if isinstance(g, grr.RegularGrid):
            g.make_regular_points_cached()
        gl.same_state(gl.grid_state(g), self.was, 'source grid in file afterwards', skip = ('points',))
        if self.all:
            gp.inherited(g.extract_property_collection(), self.pc, self.all, lambda f, a: a, 'source grid in file afterwards', absent_ok = ())

    def unchanged_in_memory(self):
        if self.was['defined'].all():  # missing geometry is documented as filled in
            gl.same_state(gl.grid_state(self.g), self.was, 'source grid object afterwards', skip = ('points', 'extra'))
            if self.vol is not None:
                arr_close(np.array(self.g.volume()), self.vol, 1e-6, 'volumes of cells in source grid object afterwards', 1e-9)


def trilinear(cp, rs, ps):
    """Corner points of fine cells."""
    nf = [sum(r) for r in rs]
    out = np.zeros(tuple(nf) + (2, 2, 2, 3))
    lo, hi = [], []
    for p in ps:
        c = [np.cumsum(v) for v in p]
        lo.append(np.concatenate([np.concatenate([[0.0], v[:-1]]) for v in c]))
        hi.append(np.concatenate(c))
    ck, cj, ci = coarse_of(rs)
    par = cp[np.ix_(ck, cj, ci)]
    for kp in (0, 1):
        for jp in (0, 1):
            for ip in (0, 1):
                fk = (hi if kp else lo)[0][:, None, None, None]
                fj = (hi if jp else lo)[1][None, :, None, None]
                fi = (hi if ip else lo)[2][None, None, :, None]
                acc = np.zeros(tuple(nf) + (3,))
                for a in (0, 1):
                    for b in (0, 1):
                        for c_ in (0, 1):
                            w = (fk if a else 1 - fk) * (fj if b else 1 - fj) * (fi if c_ else 1 - fi)
                            acc += w * par[..., a, b, c_, :]
                out[..., kp, jp, ip, :] = acc
    return out


def share(form, a, rs, ps):
    """Values expected of a refined property."""
    if form in ('columns', 'layers', 'nodes'):
        return None
    ck, cj, ci = coarse_of(rs)
    out = a[np.ix_(ck, cj, ci)].copy()
    pk, pj, pi = [np.concatenate(p) for p in ps]
    if form in ('rv', 'pv'):
        out = out * pk[:, None, None] * pj[None, :, None] * pi[None, None, :]
    elif form in ('dz', 'cdz'):
        out = out * pk[:, None, None]
    elif form == 'dy':
        out = out * pj[None, :, None]
    elif form == 'dx':
        out = out * pi[None, None, :]
    return out


def basics(g, src, n, what, title):
    eq(tuple(int(x) for x in g.extent_kji), tuple(n), f'{what}: extent')
    eq(g.title, title, f'{what}: title')
    eq((bool(g.grid_is_right_handed), bool(g.k_direction_is_down)), (src.was['right'], src.was['down']), f'{what}: handedness and k direction')
    ok(rqc.Crs(g.model, uuid = g.crs_uuid).is_equivalent(src.crs), f'{what}: crs differs from that of the source grid')


def check_window(g, src, rs, ps, set_window, new, refinement, what):
    w = (not new) if set_window is None else set_window
    if new and w:
        return
    if not w:
        ok(g.parent_window is None, f'{what}: unwanted parent window')
        return
    eq(str(g.parent_grid_uuid), str(src.uuid), f'{what}: parent grid')
    f = g.parent_window
    ok(f is not None, f'{what}: no parent window')
    if any(r != [1] * len(r) for r in rs):
        eq(bool(g.is_refinement), refinement, f'{what}: is refinement')
    s = gl.window_state(f, refinement)
    eq([s['fine'], s['coarse'], s['ratios']], [[sum(r) for r in rs], [len(r) for r in rs], [list(r) for r in rs]], f'{what}: parent window')
    if refinement:
        for x in range(3):
            arr_close(np.array(s['proportions'][x]), np.concatenate(ps[x]), 1e-6, f'{what}: proportions in parent window')


def settle(grid, epc, title, ctx, fn):
    fn(grid, 'grid returned')
    m = ctx.open_model(epc)
    ok(m.root(uuid = grid.uuid) is not None, 'new grid is not in the epc file')
    g = m.grid(uuid = grid.uuid)
    fn(g, 'grid in file')
    return m, g


source_grid = st.one_of(gl.grid_specs(max_k = 3, max_ji = 3, undefined = False), gl.grid_specs(max_k = 3, max_ji = 3, undefined = False), gl.grid_specs(max_k = 3, max_ji = 3, faults = False, undefined = False),
                        st.fixed_dictionaries(dict(regular = st.tuples(st.integers(1, 3), st.integers(1, 3), st.integers(1, 3)), explicit = st.booleans())))


# nothing is lost by not having properties which have no place in the derived grid
SKIPPED = gp.NOT_CELLS + ('points', 'count')


@check('refine', st.fixed_dictionaries(dict(grid = source_grid, crs = st.sampled_from(CRS), props = gp.prop_specs(FORMS, 3), more = more, axes = axes, inherit = inherit, mode = mode, window = st.sampled_from([None, None, True, False]), by_uuid = st.booleans())), quick = 120, thorough = 1400, shards = 4, rule = 'ratio other than one')
def refine(s, ctx):
    src = Source(s['grid'], s['crs'], s['props'], s['more'], ctx)
    rs = [ratios(a, n) for a, n in zip(s['axes'], src.n)]
    ps = [proportions(a, r) for a, r in zip(s['axes'], rs)]
    n = [sum(r) for r in rs]
    if tuple(n) != src.n:
        ctx.nontrivial()
    f = mapping(s['axes'], rs)
    kw, epc = src.args(s['mode'])
    if kw['source_grid'] is None and s['by_uuid']:
        kw['source_grid_uuid'] = src.uuid
    w = src.was
    g = rqdm.refined_grid(fine_coarse = f, new_grid_title = 'fine', set_parent_window = s['window'], **kw, **s['inherit'])
    if 'regular' in s['grid'] and w['gap_after'] is not None:
        fail('gap in regular grid')
    ck, cj, ci = coarse_of(rs)
    defined = w['defined'][np.ix_(ck, cj, ci)]
    want = np.where(defined[..., None, None, None, None], trilinear(np.nan_to_num(w['corners']), rs, ps), np.nan)
    gaps = [] if w['gap_after'] is None else [int(sum(rs[0][:k + 1])) - 1 for k in np.where(w['gap_after'])[0]]
    inactive = w['inactive'][np.ix_(ck, cj, ci)]

    def fn(h, what):
        basics(h, src, n, what, 'fine')
        st_ = gl.grid_state(h)
        for key in ('corners', 'corners again'):
            got = np.where(defined[..., None, None, None, None], st_[key], np.nan)
            gl.same_state({key: got}, {key: want}, what, tol = 1e-4)
        if w['defined'].all():
            eq([] if st_['gap_after'] is None else [int(k) for k in np.where(st_['gap_after'])[0]], gaps, f'{what}: layers with gap below')
            ok(st_['defined'].all(), f'{what}: undefined cells')
        arr_eq(st_['inactive'], inactive, f'{what}: inactive cells')
        check_window(h, src, rs, ps, s['window'], s['mode']['new'], True, what)
        pc = h.extract_property_collection()
        if s['inherit']['inherit_properties']:
            if src.all:
                gp.inherited(pc, src.pc, src.all, lambda f, a: share(f, a, rs, ps), what, realization = s['inherit']['inherit_realization'],
                             all_realizations = s['inherit']['inherit_all_realizations'] or s['inherit']['inherit_realization'] is not None, absent_ok = SKIPPED,
                             meta = {k: v for k, v in gp.META.items() if not (k == 'constant value' and 'cdz' in src.all)})
        elif pc is not None:
            ok(all(pc.property_kind_for_part(p) == 'active' for p in pc.parts()), f'{what}: properties present when none were to be inherited')

    settle(g, epc, 'fine', ctx, fn)
    src.unchanged()
    src.unchanged_in_memory()


def blocks(rs):
    """Iterates over coarse cells with slices of fine cells."""
    ends = [np.concatenate([[0], np.cumsum(r)]) for r in rs]
    for k in range(len(rs[0])):
        for j in range(len(rs[1])):
            for i in range(len(rs[2])):
                yield (k, j, i), np.s_[ends[0][k]:ends[0][k + 1], ends[1][j]:ends[1][j + 1], ends[2][i]:ends[2][i + 1]]


unsplit_grid = st.one_of(gl.grid_specs(max_k = 5, max_ji = 5, faults = False, gaps = False, undefined = False), gl.grid_specs(max_k = 5, max_ji = 5, faults = False, gaps = False, undefined = False, noise = False, pinch = False),
                         st.fixed_dictionaries(dict(regular = st.tuples(st.integers(1, 5), st.integers(1, 5), st.integers(1, 5)), explicit = st.just(True))))


def part_values(pc, title):
    parts = [] if pc is None else [p for p in pc.parts() if pc.citation_title_for_part(p) == title]
    ok(len(parts) <= 1, f'{len(parts)} properties {title}')
    return (None, None) if not parts else (parts[0], np.array(pc.cached_part_array_ref(parts[0])))


@check('coarsen', st.fixed_dictionaries(dict(grid = unsplit_grid, crs = st.sampled_from(CRS), props = gp.prop_specs(FORMS, 3), more = more, axes = axes, inherit = inherit, mode = mode, window = st.sampled_from([None, None, True, False]))), quick = 120, thorough = 1400, shards = 4, rule = 'ratio other than one')
def coarsen(s, ctx):
    src = Source(s['grid'], s['crs'], s['props'], s['more'], ctx)
    rs = [ratios(dict(a, p = False), n, False) for a, n in zip(s['axes'], src.n)]
    n = [len(r) for r in rs]
    if tuple(n) != src.n:
        ctx.nontrivial()
    f = mapping([dict(a, p = False, mode = 'const' if len(set(r)) == 1 and a['mode'] != 'vector' else 'vector') for a, r in zip(s['axes'], rs)], rs)
    kw, epc = src.args(s['mode'])
    w = src.was
    g = rqdm.coarsened_grid(fine_coarse = f, new_grid_title = 'coarse', set_parent_window = s['window'], **kw, **s['inherit'])
    cells = list(blocks(rs))
    cp = np.zeros(tuple(n) + (2, 2, 2, 3))
    known = np.zeros(tuple(n), dtype = bool)
    for c, sl in cells:
        b = w['corners'][sl]
        known[c] = w['defined'][sl].all()
        for kp in (0, 1):
            for jp in (0, 1):
                for ip in (0, 1):
                    cp[c + (kp, jp, ip)] = b[-kp, -jp, -ip, kp, jp, ip]
    cp[~known] = np.nan

    def fn(h, what):
        basics(h, src, n, what, 'coarse')
        st_ = gl.grid_state(h)
        for key in ('corners', 'corners again'):
            gl.same_state({key: np.where(known[..., None, None, None, None], st_[key], np.nan)}, {key: cp}, what, tol = 1e-5)
        ok(not st_['k_gaps'] and not st_['split'], f'{what}: has gaps or split pillars')
        check_window(h, src, rs, None, s['window'], s['mode']['new'], False, what)
        pc = h.extract_property_collection()
        if not s['inherit']['inherit_properties']:
            ok(pc is None or all(pc.property_kind_for_part(p) == 'active' for p in pc.parts()), f'{what}: properties present when none were to be inherited')
            return
        r = s['inherit']['inherit_realization']
        everything = s['inherit']['inherit_all_realizations'] or r is not None
        have = {}
        for t, (form, a, real) in src.all.items():
            part, got = part_values(pc, t)
            wanted = real == r if (r is not None or not everything) else True
            if not wanted or form in SKIPPED:
                ok(part is None or form in SKIPPED, f'{what}: property for realization {real} when {r} was wanted')
                continue
            ok(part is not None, f'{what}: no {form} property')
            sp = src.pc.singleton(citation_title = t)
            for name, mf in gp.META.items():
                x, y = getattr(pc, mf)(part), getattr(src.pc, mf)(sp)
                if name == 'constant value' or (name == 'null value' and y is None):
                    continue
                ok(str(x) == str(y), f'{what}: {name} of the {form} property is {x!r}, was {y!r}')
            for mf in ('time_series_uuid_for_part', 'string_lookup_uuid_for_part'):
                x, y = getattr(pc, mf)(part), getattr(src.pc, mf)(sp)
                eq(x is None, y is None, f'{what}: presence of {mf[:-14]} for the {form} property')
                ok(x is None or pc.model.root(uuid = x) is not None, f'{what}: {mf[:-14]} is not in the model')
            if form == 'bool':
                got = np.array(got, dtype = bool)
            eq(tuple(got.shape), tuple(n), f'{what}: shape of the {form} property')
            have[t] = (form, a, got)
            for c, sl in cells:
                b = a[sl]
                if form in ('rv', 'pv'):
                    close(float(got[c]), float(b.sum()), 1e-6, f'{what}: {form} total at {c}', 1e-5)
                elif form in ('dz', 'cdz', 'dy', 'dx'):
                    x = {'z': 0, 'y': 1, 'x': 2}[form[-1]]
                    close(float(got[c]), float(b.sum(axis = x).mean()), 1e-6, f'{what}: cell length at {c}', 1e-5)
                elif a.dtype.kind in 'ib':
                    ok(got[c] in b, f'{what}: value {got[c]} of the {form} property at {c} is not among those of the fine cells')
                elif src.vol[sl].sum() > 1e-6:
                    ok(b.min() - 1e-5 <= got[c] <= b.max() + 1e-5, f'{what}: value {got[c]} of the {form} property at {c} is outside the range of the fine values {b.min()} to {b.max()}')
        # totals, where there is no doubt about which properties were to be used with which
        fine_v = src.more['rv'][1] if 'rv' in src.more else src.vol
        if fine_v is None or r is not None:
            return
        h_v = np.zeros(tuple(n))
        for c, sl in cells:
            h_v[c] = fine_v[sl].sum()
        nrv_f, nrv_c = fine_v, h_v
        if 'ntg' in have:
            nrv_f, nrv_c = nrv_f * have['ntg'][1], nrv_c * have['ntg'][2]
            close(float(np.nansum(nrv_c)), float(nrv_f.sum()), 1e-4, f'{what}: total net rock volume', 1e-4)
        poro = [t for t in have if have[t][0] in ('cont', 'const')]
        if len(poro) == 1:
            pv_f, pv_c = nrv_f * have[poro[0]][1], nrv_c * have[poro[0]][2]
            close(float(np.nansum(pv_c)), float(pv_f.sum()), 1e-4, f'{what}: total pore volume', 1e-4)
            if 'sat' in have:
                close(float(np.nansum(pv_c * have['sat'][2])), float(np.sum(pv_f * have['sat'][1])), 1e-4, f'{what}: total volume of water', 1e-4)
        elif not poro and 'sat' in have:
            close(float(np.nansum(nrv_c * have['sat'][2])), float(np.sum(nrv_f * have['sat'][1])), 1e-4, f'{what}: total volume of water', 1e-4)
        if 'perm' in have:
            close(float(np.nansum(nrv_c * have['perm'][2])), float(np.sum(nrv_f * have['perm'][1])), 1e-4, f'{what}: net rock volume weighted permeability', 1e-4)

    m, h = settle(g, epc, 'coarse', ctx, fn)
    if known.all():
        # volumes given by the grid returned
        v = g.volume()
        if v is not None:
            arr_close(np.array(v), np.array(grr.Grid(m, uuid = g.uuid).volume()), 1e-4, 'volumes of the grid returned', 1e-6)
    src.unchanged()
    if s['mode']['given'] != 'epc':
        src.unchanged_in_memory()


@check('there and back', st.fixed_dictionaries(dict(grid = st.one_of(gl.grid_specs(max_k = 3, max_ji = 3, faults = False, gaps = False, undefined = False, noise = False, pinch = False), unsplit_grid.filter(lambda g: 'regular' in g and max(g['regular']) <= 3)), crs = st.sampled_from(CRS), props = gp.prop_specs([f for f in FORMS if f not in SKIPPED], 3),
       more = more, axes = axes, new = st.booleans())), quick = 60, thorough = 700, shards = 4, rule = 'ratio other than one')
def back(s, ctx):
    src = Source(s['grid'], s['crs'], s['props'], s['more'], ctx)
    rs = [ratios(a, n) for a, n in zip(s['axes'], src.n)]
    if any(r != [1] * len(r) for r in rs):
        ctx.nontrivial()
    mid = ctx.path('fine') if s['new'] else None
    g = rqdm.refined_grid(src.epc, src.g, mapping(s['axes'], rs), inherit_properties = True, inherit_all_realizations = True, new_grid_title = 'fine', new_epc_file = mid)
    m = ctx.open_model(mid or src.epc)
    end = ctx.path('coarse') if s['new'] else None
    c = rqdm.coarsened_grid(mid or src.epc, m.grid(uuid = g.uuid), mapping(s['axes'], rs), inherit_properties = True, inherit_all_realizations = True, new_grid_title = 'coarse', new_epc_file = end)

    def fn(h, what):
        basics(h, src, src.n, what, 'coarse')
        st_ = gl.grid_state(h)
        gl.same_state({'corners': st_['corners']}, {'corners': src.was['corners']}, what, tol = 1e-4)
        if src.all:
            gp.inherited(h.extract_property_collection(), src.pc, src.all, lambda f, a: a, what, absent_ok = (), meta = {k: v for k, v in gp.META.items() if k != 'constant value'}, tol = 1e-4)

    settle(c, end or mid or src.epc, 'coarse', ctx, fn)
    src.unchanged()
