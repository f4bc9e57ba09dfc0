"""model-based generation: connection sets as lists of (interpretation, cell face pair) items through histories of operations

A connection set is modelled as a list of (interpretation, two cell faces, property values).  Sets built from face masks,
kelp, face indices, face tables and simulator text, and sets derived by appending, merging, filtering by layer range or
cell mask, extracting a feature, inheriting features, storing and reopening are compared with the list put through the
same operations, as are the sets operated on (which must not change).  Views (grid face arrays, column edge lists and
arrays, kelp, combined multipliers, column maps, skins, surfaces) are compared with direct enumeration over the list.
"""
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.grid as grr
import resqpy.fault as rqf
import resqpy.organize as rqo
import resqpy.property as rqp

from pbt.core import *
from pbt.lib.gen import *

CODE = {(0, 0): 0, (0, 1): 1, (1, 0): 2, (2, 1): 3, (1, 1): 4, (2, 0): 5}  # top, base, J-, I+, J+, I-
FACE = {v: k for k, v in CODE.items()}
NAMES = ['F1', 'F10', 'Alpha', 'beta_3', 'north fault']
KINDS = {'fault': 'obj_FaultInterpretation', 'horizon': 'obj_HorizonInterpretation', 'geobody boundary': 'obj_GeobodyBoundaryInterpretation'}

extents = st.tuples(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4))


def make_grid(m, n, title = 'ROOT', crs = None, cls = 'regular', d = (10.0, 20.0, 2.0)):
    if crs is None:
        crs = rqc.Crs(m)
        crs.create_xml()
    g = grr.RegularGrid(m, extent_kji = tuple(n), dxyz = d, crs_uuid = crs.uuid, title = title)
    if cls == 'irregular':
        g = grr.RegularGrid(m, extent_kji = tuple(n), dxyz = d, crs_uuid = crs.uuid, title = title, as_irregular_grid = True)
        g.write_hdf5()
    g.create_xml(add_cell_length_properties = False)
    return g


def make_fi(m, name):
    f = rqo.TectonicBoundaryFeature(m, feature_name = name, kind = 'fault')
    f.create_xml()
    i = rqo.FaultInterpretation(m, title = name, tectonic_boundary_feature = f, is_normal = True)
    i.create_xml()
    return i


def faces_of(n, axis):
    s = list(n)
    s[axis] = max(s[axis] - 1, 0)
    return tuple(s)


def pair(cell, axis, flip = False):
    """Pair of cell faces for the face on the plus side of a cell."""
    other = list(cell)
    other[axis] += 1
    p = ((tuple(int(x) for x in cell), axis, 1), (tuple(int(x) for x in other), axis, 0))
    return p[::-1] if flip else p


def masks_for(n, rng, density):
    return [rng.random(faces_of(n, a)) < density for a in range(3)]


def pairs_of_masks(masks, sides = None):
    return [pair(c, a, bool(sides[a][tuple(c)]) if sides is not None and sides[a] is not None else False) for a in range(3) if masks[a] is not None for c in np.argwhere(masks[a])]


def items(gcs):
    """Items of a connection set, worked out from its raw arrays."""
    gcs.cache_arrays()
    n = int(gcs.count)
    cip, fip = np.asarray(gcs.cell_index_pairs), np.asarray(gcs.face_index_pairs)
    eq(cip.shape, (n, 2), 'shape of cell index pairs')
    eq(fip.shape, (n, 2), 'shape of face index pairs')
    fl = gcs.feature_list
    fi = gcs.feature_indices
    if fl is not None:
        eq(np.shape(fi), (n,), 'shape of feature indices')
    multi = len(gcs.grid_list) > 1
    out = []
    for e in range(n):
        sides = []
        for p in range(2):
            gi = int(gcs.grid_index_pairs[e, p]) if multi else 0
            c = np.unravel_index(int(cip[e, p]), tuple(gcs.grid_list[gi].extent_kji))
            a, q = FACE[int(fip[e, p])]
            s = (tuple(int(x) for x in c), a, q)
            sides.append((gi,) + s if multi else s)
        f = None
        if fl is not None:
            ok(0 <= int(fi[e]) < len(fl), f'feature index {int(fi[e])} out of range')
            f = str(fl[int(fi[e])][1])
        out.append((f,) + tuple(sides))
    return out


def same_items(gcs, want, what, ordered = False):
    got = items(gcs)
    eq(len(got), len(want), f'{what}: number of connections')
    if not ordered:
        got, want = sorted(got, key = repr), sorted(want, key = repr)
    for x, y in zip(got, want):
        ok(x == y, f'{what}: connection {x} where {y} was expected')


def names_ok(gcs, names, what):
    """Features are those of the dictionary of uuid: name."""
    for t, u, title in (gcs.feature_list or []):
        ok(str(u) in names, f'{what}: unexpected feature {title}')
        eq(title, names[str(u)], f'{what}: feature name')


def attach(gcs, vals, codes = None):
    pc = gcs.extract_property_collection()
    if vals is not None:
        pc.add_cached_array_to_imported_list(np.array(vals, dtype = float), 'test', 'val', uom = 'm', property_kind = 'length', indexable_element = 'faces')
    if codes is not None:
        pc.add_cached_array_to_imported_list(np.array(codes, dtype = int), 'test', 'code', discrete = True, property_kind = 'code', indexable_element = 'faces', null_value = -1)


def prop_of(gcs, title):
    """Values of the named property of a stored connection set."""
    uu = gcs.model.uuids(obj_type = None, title = title, related_uuid = gcs.uuid)
    uu = [u for u in uu if str(gcs.model.type_of_uuid(u)).endswith('Property')]
    eq(len(uu), 1, f'number of properties titled {title}')
    p = rqp.Property(gcs.model, uuid = uu[0])
    eq(p.indexable_element(), 'faces', f'indexable element of property {title}')
    a = p.array_ref()
    eq(np.shape(a), (int(gcs.count),), f'shape of property {title}')
    return a


def stored(ctx, gcs, m, cache = False, props = True):
    """Store and reopen: returns model, connection set."""
    gcs.write_hdf5()
    gcs.create_xml()
    u = gcs.uuid
    m = ctx.reopen(m)
    return m, rqf.GridConnectionSet(m, uuid = u, cache_arrays = cache, find_properties = props)


def with_props(gcs, what, **kw):
    """Sorted items of a stored set together with property values."""
    return [x + tuple(float(v[e]) for v in kw.values()) for e, x in enumerate(items(gcs))]


def match(got, want, what):
    got, want = sorted(got, key = repr), sorted(want, key = repr)
    eq(len(got), len(want), f'{what}: number of connections')
    for x, y in zip(got, want):
        ok(x == y, f'{what}: connection with properties {x} where {y} was expected')


ROW = st.fixed_dictionaries(dict(f = st.integers(0, 2), face = st.sampled_from(['I', 'J', 'K', 'I+', 'J-', 'K-', 'I-', 'J+', 'K+', 'i', 'j+', 'k-']), lo = st.tuples(*[st.integers(0, 3)] * 3), d = st.tuples(*[st.integers(0, 2)] * 3), mult = st.sampled_from([1.0, 0.5, 0.0, 0.25, 2.0])))

MADE = st.fixed_dictionaries(dict(n = extents, other = extents, second = st.booleans(), how = st.sampled_from(['masks', 'sides', 'kelp', 'indices', 'table', 'table', 'some masks']), kind = st.sampled_from(['fault', 'horizon', 'geobody boundary']), name = st.sampled_from(NAMES), exists = st.booleans(), feature_only = st.booleans(),
    seed = seeds, density = st.sampled_from([0.0, 0.2, 0.5, 1.0]), duplicates = st.booleans(), keep_duplicates = st.booleans(), axis = st.sampled_from('KJI'), rows = st.lists(ROW, min_size = 1, max_size = 5), one = st.booleans(), tdict = st.sampled_from([None, {'F1': 0.5}, {'alpha': 2.0, 'F10': 3.0}]), mults = st.booleans(), title = st.sampled_from([None, 'connections']), extra = st.sampled_from([None, {'a': 'b'}]), cache = st.booleans(), shuffled = st.booleans()))


@check('made', MADE, quick = 500, thorough = 25000, shards = 8, rule = 'at least three connections')
def made(spec, ctx):
    m = ctx.new_model()
    n = tuple(spec['n'])
    first = make_grid(m, spec['other'] if spec['second'] else n)
    g = make_grid(m, n, 'second') if spec['second'] else first
    rng = np.random.default_rng(spec['seed'])
    how, kind, name = spec['how'], spec['kind'], spec['name']
    ctx.label(how)
    names = {}
    fi = None
    if spec['exists']:
        for x in NAMES:
            i = make_fi(m, x)
            names[str(i.uuid)] = x
    elif spec['feature_only']:
        f = rqo.TectonicBoundaryFeature(m, feature_name = name, kind = 'fault')
        f.create_xml()
    kw = dict(grid = g, title = spec['title'], extra_metadata = spec['extra'])
    vals = {}
    want = None
    if how in ('masks', 'sides', 'some masks'):
        masks = masks_for(n, rng, spec['density'])
        sides = [rng.random(x.shape) < 0.5 for x in masks] if how == 'sides' else None
        if how == 'some masks':
            drop = int(rng.integers(0, 3))
            masks[drop] = None
        want = pairs_of_masks(masks, sides)
        sk = {} if sides is None else dict(k_sides = sides[0], j_sides = sides[1], i_sides = sides[2])
        gcs = rqf.GridConnectionSet(m, k_faces = masks[0], j_faces = masks[1], i_faces = masks[2], feature_name = name, feature_type = kind, create_organizing_objects_where_needed = True, **sk, **kw)
    elif how == 'kelp':
        ax = 'KJI'.index(spec['axis'])
        rest = [a for a in range(3) if a != ax]
        lists = []
        want = []
        for a in rest:
            full = faces_of(n, a)
            layer = rng.random(tuple(full[x] for x in rest)) < spec['density']
            lists.append([tuple(int(v) for v in c) for c in np.argwhere(layer)])
            for c in np.argwhere(layer):
                for x in range(n[ax]):
                    cell = np.zeros(3, dtype = int)
                    cell[rest] = c
                    cell[ax] = x
                    want.append(pair(cell, a))
        gcs = rqf.GridConnectionSet(m, **kw)
        gcs.set_pairs_from_kelp(lists[0], lists[1], name, True, axis = spec['axis'], feature_type = kind)
    elif how == 'indices':
        idx, props, want, keep = [], [], [], []
        for a in range(3):
            c = np.argwhere(rng.random(faces_of(n, a)) < spec['density'])
            if spec['duplicates'] and len(c):
                c = np.concatenate((c, c[rng.integers(0, len(c), 2)]))
            c = c[rng.permutation(len(c))] if spec['shuffled'] else c
            val = np.array([100000.0 * a + 10000 * x[0] + 100 * x[1] + x[2] for x in c])  # value belonging to the face
            idx.append(c if len(c) or rng.random() < 0.5 else None)
            props.append([val, -val])
            seen = set()
            for x in c:
                if spec['keep_duplicates'] or tuple(x) not in seen:
                    want.append(pair(x, a))
                seen.add(tuple(x))
        kept = [p[0] for p in props]
        gcs = rqf.GridConnectionSet.from_faces_indices(g, idx[0], idx[1], idx[2], remove_duplicates = not spec['keep_duplicates'], k_properties = props[0], j_properties = props[1], i_properties = props[2], feature_name = name, feature_type = kind, title = spec['title'], extra_metadata = spec['extra'])
        v = np.concatenate([p[0] for p in props])
        eq(len(v), int(gcs.count), 'number of property values for the face indices')
        arr_eq(np.concatenate([p[1] for p in props]), -v, 'second property')
        for x, y in zip(items(gcs), v):
            c, a, _ = x[1]
            eq(float(y), 100000.0 * a + 10000 * c[0] + 100 * c[1] + c[2], 'property value of face')
    else:  # face table
        kind = 'fault'
        rows = []
        want, mults = [], []
        tdict = spec['tdict'] if spec['mults'] else None
        fnames = ['F1', 'F10', 'Alpha']
        for r in spec['rows']:
            face = r['face'].upper()
            a, q = 'KJI'.index(face[0]), 0 if face.endswith('-') else 1
            if n[a] == 1:
                continue
            lo = [min(x, y - 1) for x, y in zip(r['lo'], n)]
            hi = [min(x + y, z - 1) for x, y, z in zip(lo, r['d'], n)]
            # a range on the outside of the grid is left out, as documented
            if rng.random() < 0.8:
                lo[a] = max(lo[a], 1) if q == 0 else min(lo[a], n[a] - 2)
                hi[a] = max(hi[a], 1) if q == 0 else min(hi[a], n[a] - 2)
            else:
                hi[a] = lo[a]
            ext = lo[a] == 0 if q == 0 else hi[a] == n[a] - 1
            f = fnames[r['f']]
            rows.append(dict(name = f, face = r['face'], i1 = lo[2], i2 = hi[2], j1 = lo[1], j2 = hi[1], k1 = lo[0], k2 = hi[0], mult = r['mult']))
            if ext:
                continue
            for k, j, i in np.ndindex(*[h - l + 1 for l, h in zip(lo, hi)]):
                cell = [k + lo[0], j + lo[1], i + lo[2]]
                if q == 0:
                    cell[a] -= 1
                t = 1.0 if tdict is None else {x.lower(): y for x, y in tdict.items()}.get(f.lower(), 1.0)
                want.append((f,) + pair(cell, a, q == 0) + (r['mult'] * t,))
        if not rows:
            return
        df = pd.DataFrame(rows)
        cols = ['i1', 'i2', 'j1', 'j2', 'k1', 'k2']
        if spec['one']:
            df[cols] += 1
        if spec['shuffled']:
            df.index = [7 * x + 3 for x in range(len(df))][::-1]
        gcs = rqf.GridConnectionSet(m, **kw)
        create = not spec['exists'] or spec['duplicates']
        gcs.set_pairs_from_faces_df(df, create_organizing_objects_where_needed = create, create_mult_prop = spec['mults'], fault_tmult_dict = tdict, one_based_indexing = spec['one'])
        by = {f: str(u) for _, u, f in gcs.feature_list}
        if spec['exists']:
            for f, u in by.items():
                eq(names.get(u), f, 'existing interpretation used')
        ok({w[0] for w in want} <= set(by), 'a fault with faces is not in the feature list')
        vals = [(by[w[0]],) + w[1:] for w in want]
        want = [x[:3] for x in vals]
        names = {v: k for k, v in by.items()}
        # constant multiplier of a new interpretation
        for f, u in by.items():
            ms = {w[3] for w in vals if w[0] == u}
            x = rqo.FaultInterpretation(m, uuid = u).extra_metadata.get('Transmissibility multiplier')
            if not spec['exists'] and len(ms) == 1 and spec['mults']:
                ok(x is not None and np.isclose(float(x), list(ms)[0]), f'multiplier {x} recorded for fault with multiplier {ms}')
            elif len(ms) > 1:
                ok(x is None, f'multiplier {x} recorded for fault with multipliers {ms}')
    ctx.nontrivial(len(want) >= 3)
    if how != 'table':
        eq(len(gcs.feature_list), 1, 'number of features')
        t, u, title = gcs.feature_list[0]
        eq((t, title), (KINDS[kind], name), 'feature')
        eq(str(m.type_of_uuid(u)), KINDS[kind], 'type of interpretation')
        if kind == 'fault' and spec['exists']:
            eq(names.get(str(u)), name, 'existing interpretation used')
        names = {str(u): name}
        want = [(str(u),) + w for w in want]
    eq([str(x.uuid) for x in gcs.grid_list], [str(g.uuid)], 'grid')
    same_items(gcs, want, 'when made')
    eq(int(gcs.count), len(want), 'count')
    if not want:
        return
    title = gcs.title
    m, h = stored(ctx, gcs, m, spec['cache'])
    eq(int(h.count), len(want), 'count when reopened')
    eq([str(x.uuid) for x in h.grid_list], [str(g.uuid)], 'grid when reopened')
    eq(h.title, spec['title'] or title or 'ROOT', 'title')
    for k, v in (spec['extra'] or {}).items():
        eq(h.extra_metadata.get(k), v, 'extra metadata')
    same_items(h, want, 'reopened')
    names_ok(h, names, 'reopened')
    eq(len(h.feature_list), len(gcs.feature_list), 'number of features reopened')
    if how == 'table' and spec['mults']:
        a = prop_of(h, 'TMULT')
        match(with_props(h, '', a = a), vals, 'multipliers')


OP = st.one_of(
    st.fixed_dictionaries(dict(op = st.just('store'), cache = st.booleans())),
    st.fixed_dictionaries(dict(op = st.just('layers'), lo = st.sampled_from([None, -1, 0, 1, 2]), hi = st.sampled_from([None, 0, 1, 2, 3, 9]), pare = st.booleans())),
    st.fixed_dictionaries(dict(op = st.just('mask'), seed = seeds, both = st.booleans(), pare = st.booleans(), d = st.sampled_from([0.3, 0.7, 1.0]))),
    st.fixed_dictionaries(dict(op = st.just('single'), f = st.integers(0, 7), named = st.booleans())),
    st.fixed_dictionaries(dict(op = st.just('append'), seed = seeds, f = st.integers(0, 4), d = st.sampled_from([0.2, 0.6]), stored = st.booleans(), other = st.booleans())),
    st.fixed_dictionaries(dict(op = st.just('copy'))))

HIST = st.fixed_dictionaries(dict(n = extents, second = st.booleans(), feats = st.lists(st.integers(0, 4), min_size = 1, max_size = 4), seed = seeds, d = st.sampled_from([0.2, 0.6, 1.0]), ops = st.lists(OP, min_size = 1, max_size = 6), props = st.booleans()))


def build_set(m, g, n, feats, rng, density, fis):
    """Connection set with one set of masks per feature: returns the set and its items."""
    gcs, want = None, []
    for f in feats:
        masks = masks_for(n, rng, density)
        ps = pairs_of_masks(masks)
        if not ps:
            continue
        one = rqf.GridConnectionSet(m, grid = g, k_faces = masks[0], j_faces = masks[1], i_faces = masks[2], feature_name = NAMES[f], create_organizing_objects_where_needed = True, title = 'set')
        want += [(fis[f],) + p for p in ps]
        if gcs is None:
            gcs = one
        else:
            gcs.append(one)
    return gcs, want


@check('history', HIST, quick = 500, thorough = 25000, shards = 8, rule = 'at least two features, and at least three connections left at the end')
def history(spec, ctx):
    m = ctx.new_model()
    n = tuple(spec['n'])
    crs = rqc.Crs(m)
    crs.create_xml()
    g = make_grid(m, n, 'second' if spec['second'] else 'ROOT', crs)
    if spec['second']:
        make_grid(m, (2, 2, 2), 'ROOT', crs)
    names = {}
    fis = []
    for x in NAMES:
        i = make_fi(m, x)
        names[str(i.uuid)] = x
        fis.append(str(i.uuid))
    gu = str(g.uuid)
    rng = np.random.default_rng(spec['seed'])
    gcs, want = build_set(m, g, n, spec['feats'], rng, spec['d'], fis)
    if gcs is None:
        return
    same_items(gcs, want, 'at first')
    vals = None
    if spec['props']:
        vals = [float(x) for x in rng.integers(0, 10**6, len(want))]
        attach(gcs, vals, [int(x) % 1000 for x in vals])
        m, gcs = stored(ctx, gcs, m)
    for k, o in enumerate(spec['ops']):
        what = f'operation {k}, {o["op"]}'
        ctx.label(o['op'])
        g = gcs.grid_list[0]
        eq(str(g.uuid), gu, f'{what}: grid')
        old, old_want, old_feats = gcs, list(want), list(gcs.feature_list)
        feats = [str(u) for _, u, _ in gcs.feature_list]
        new, idx, sel = None, None, None
        if o['op'] == 'store':
            new, sel = None, list(range(len(want)))
            if gcs.root is None:
                m, gcs = stored(ctx, gcs, m, o['cache'])
            else:
                m = ctx.reopen(m)
                gcs = rqf.GridConnectionSet(m, uuid = gcs.uuid, cache_arrays = o['cache'], find_properties = True)
            same_items(gcs, want, what)
            names_ok(gcs, names, what)
            eq([str(u) for _, u, _ in gcs.feature_list], feats, f'{what}: features')
            if vals is not None:
                match(with_props(gcs, '', a = prop_of(gcs, 'val')), [w + (v,) for w, v in zip(want, vals)], what)
            continue
        if o['op'] in ('layers', 'mask'):
            if o['op'] == 'layers':
                lo, hi = o['lo'], o['hi']
                a = 0 if lo is None else lo
                b = n[0] - 1 if hi is None else hi
                keep = [all(a <= w[1 + p][0][0] <= b for p in range(2)) for w in want]
                kw = {} if lo is None else dict(min_k0 = lo)
                if hi is not None:
                    kw['max_k0'] = hi
                new, idx = gcs.filtered_by_layer_range(pare_down = o['pare'], return_indices = True, **kw)
                plain = gcs.filtered_by_layer_range(pare_down = o['pare'], **kw)
            else:
                mask = np.random.default_rng(o['seed']).random(n) < o['d']
                keep = [(all if o['both'] else any)(bool(mask[w[1 + p][0]]) for p in range(2)) for w in want]
                new, idx = gcs.filtered_by_cell_mask(mask, both_cells_required = o['both'], pare_down = o['pare'], return_indices = True)
                plain = gcs.filtered_by_cell_mask(mask, both_cells_required = o['both'], pare_down = o['pare'])
            order = items(gcs)
            sel = [e for e, x in enumerate(order) if x in {w for w, kp in zip(want, keep) if kp}]
            if not sel:
                ok(new is None and idx is None and plain is None, f'{what}: no connections expected')
                same_items(gcs, old_want, f'{what}: the set filtered')
                continue
            ok(new is not None and plain is not None, f'{what}: no connections returned')
            eq([int(x) for x in idx], sel, f'{what}: selected indices')
            same_items(new, [order[e] for e in sel], what, ordered = True)
            same_items(plain, [order[e] for e in sel], what, ordered = True)
            used = {order[e][0] for e in sel}
            nf = [str(u) for _, u, _ in new.feature_list]
            if o['pare']:
                fi = set(int(x) for x in new.feature_indices)
                eq(fi, set(range(len(nf))), f'{what}: features in use, of those listed')
            else:
                eq(nf, feats, f'{what}: features when not pared down')
                arr_eq(new.feature_indices, gcs.feature_indices[np.array(sel)], f'{what}: feature indices when not pared down')
        elif o['op'] == 'single':
            gcs.cache_arrays()
            order = items(gcs)
            if o['named']:
                name = NAMES[o['f'] % len(NAMES)]
                new = gcs.single_feature(feature_name = name)
                if fis[NAMES.index(name)] not in feats:
                    if name == 'F1' and fis[1] in feats:
                        ctx.label('prefix')  # documented: the title must start with the name given
                        continue
                    ok(new is None, f'{what}: a set was returned for an absent feature')
                    continue
                f = feats.index(fis[NAMES.index(name)])
            else:
                f = o['f']
                new = gcs.single_feature(feature_index = f)
                if f >= len(feats):
                    ok(new is None, f'{what}: a set was returned for an absent feature')
                    continue
            fi = [int(x) for x in gcs.feature_indices]
            sel = [e for e in range(len(order)) if fi[e] == f]
            idx = gcs.indices_for_feature_index(f)
            eq([int(x) for x in idx], sel, f'{what}: indices for feature')
            ok(new is not None, f'{what}: nothing returned')
            same_items(new, [order[e] for e in sel], what, ordered = True)
            eq([str(u) for _, u, _ in new.feature_list], [feats[f]], f'{what}: features')
            if not sel:
                continue
        elif o['op'] in ('append', 'copy'):
            new = rqf.GridConnectionSet(m, grid = g, title = 'copy')
            new.append(gcs)
            same_items(new, want, f'{what}: appended to an empty set')
            if o['op'] == 'append':
                r = np.random.default_rng(o['seed'])
                am, ag, af = m, g, fis
                if o['other']:  # from another model with a copy of the grid
                    am = ctx.new_model(f'other{k}')
                    am.copy_uuid_from_other_model(m, g.uuid)
                    ag = am.grid(uuid = g.uuid, find_properties = False)
                    for u in fis:
                        am.copy_uuid_from_other_model(m, u)
                add, awant = build_set(am, ag, n, [o['f']], r, o['d'], af)
                if add is None:
                    continue
                if o['stored']:
                    am2, add = stored(ctx, add, am) if o['other'] else (am, add)
                    if not o['other']:
                        add.write_hdf5()
                        add.create_xml()
                        add = rqf.GridConnectionSet(m, uuid = add.uuid)
                new.append(add)
                same_items(new, want + awant, what)
                same_items(add, awant, f'{what}: the set appended')
                want = old_want + awant
                vals = None
                # appending to a set that has been loaded from file
                if gcs.root is not None:
                    again = rqf.GridConnectionSet(m, uuid = gcs.uuid)
                    again.append(add)
                    same_items(again, want, f'{what} to a set from file')
            same_items(gcs, old_want, f'{what}: the set copied')
            eq([str(u) for _, u, _ in gcs.feature_list], feats, f'{what}: features of the set copied')
            names_ok(new, names, what)
            sel = None if o['op'] == 'append' else list(range(len(want)))
            idx = None if sel is None else np.arange(len(want))
        # the set worked upon is unchanged
        same_items(old, old_want, f'{what}: the set worked upon')
        ok(list(old.feature_list) == old_feats, f'{what}: feature list of the set worked upon has changed')
        eq(str(new.grid_list[0].uuid), gu, f'{what}: grid of the result')
        if sel is not None:
            order = items(old)
            if vals is not None:
                have = {}
                a = prop_of(old, 'val')
                new.inherit_properties_for_selected_indices(old, np.asarray(idx))
                new.title = f'step {k}'
                m, new = stored(ctx, new, m)
                b = prop_of(new, 'val')
                c = prop_of(new, 'code')
                vals = [float(a[e]) for e in sel]
                match(with_props(new, '', b = b, c = c), [order[e] + (v, float(int(v) % 1000)) for e, v in zip(sel, vals)], f'{what}: with inherited properties')
            want = [order[e] for e in sel]
        if vals is not None:  # keep in the order of the set
            vals = [float(x) for x in prop_of(new, 'val')]
            want = items(new)
        gcs = new
    ctx.nontrivial(len(set(spec['feats'])) > 1 and len(want) >= 3)
    same_items(gcs, want, 'at the end')


MERGE = st.fixed_dictionaries(dict(n = extents, sets = st.lists(st.lists(st.integers(0, 4), min_size = 1, max_size = 2), min_size = 2, max_size = 4), seed = seeds, d = st.sampled_from([0.3, 0.7]), other = st.booleans(), props = st.sampled_from(['none', 'val', 'val code', 'points', 'text']), cls = st.sampled_from(['regular', 'irregular']), reopen = st.booleans()))


@check('merge', MERGE, quick = 200, thorough = 10000, shards = 4, rule = 'at least three connections')
def merge(spec, ctx):
    """Merging stored sets, with their properties, in the same or another model."""
    m = ctx.new_model('source')
    n = tuple(spec['n'])
    g = make_grid(m, n, cls = spec['cls'])
    names, fis = {}, []
    for x in NAMES:
        i = make_fi(m, x)
        names[str(i.uuid)] = x
        fis.append(str(i.uuid))
    rng = np.random.default_rng(spec['seed'])
    uuids, want, vals, pts, plists = [], [], [], [], [[], []]
    sl = None
    if spec['props'] == 'text':
        sl = rqp.StringLookup(m, title = 'lookup', int_to_str_dict = {i: f'v{i}' for i in range(10)})
        sl.create_xml()
    for feats in spec['sets']:
        gcs, w = build_set(m, g, n, feats, rng, spec['d'], fis)
        if gcs is None:
            continue
        gcs.write_hdf5()
        gcs.create_xml()
        v = rng.integers(0, 1000, len(w)).astype(float)
        pc = rqp.PropertyCollection(support = gcs)
        xyz = rng.integers(0, 1000, (len(w), 3)).astype(float)
        if spec['props'] in ('val', 'val code'):
            pc.add_cached_array_to_imported_list(v, 'test', 'val', uom = 'm', property_kind = 'length', indexable_element = 'faces')
        if spec['props'] == 'val code':
            pc.add_cached_array_to_imported_list(v.astype(int) + 1, 'test', 'code', discrete = True, property_kind = 'code', indexable_element = 'faces', null_value = -1)
        if spec['props'] == 'points':
            pc.add_cached_array_to_imported_list(xyz, 'test', 'val', uom = 'm', property_kind = 'normal vector', indexable_element = 'faces', points = True)
        if spec['props'] == 'text':
            v = v % 10
            pc.add_cached_array_to_imported_list(v.astype(int), 'test', 'val', discrete = True, property_kind = 'rock type', indexable_element = 'faces', null_value = -1)
        pc.write_hdf5_for_imported_list()
        pu = pc.create_xml_for_imported_list_and_add_parts_to_model(string_lookup_uuid = None if sl is None else sl.uuid)
        for x, y in zip(plists, pu):
            x.append(y)
        uuids.append(gcs.uuid)
        want += w
        vals += list(v)
        pts += [tuple(x) for x in xyz]
    if len(uuids) < 2:
        return
    ctx.nontrivial(len(want) >= 3)
    m = ctx.reopen(m)
    t = m
    if spec['other']:
        t = ctx.new_model('target')
        t.copy_uuid_from_other_model(m, g.uuid)
    lists = [x for x in plists if x] or None
    new = rqf.GridConnectionSet.from_gcs_uuid_list(t, m, uuids, 'merged', lists)
    same_items(new, want, 'merged')
    u = new.uuid
    if spec['other'] and spec['reopen']:
        m.h5_release()
        os.rename(m.epc_file, m.epc_file + '.gone')
        os.rename(m.epc_file[:-4] + '.h5', m.epc_file[:-4] + '.gone')
    if spec['reopen']:
        t = ctx.reopen(t)
    new = rqf.GridConnectionSet(t, uuid = u)
    eq(new.title, 'merged', 'title')
    same_items(new, want, 'merged, stored')
    names_ok(new, names, 'merged')
    for f in new.feature_list:
        ok(t.part_for_uuid(f[1]) is not None, 'interpretation missing from the model')
    p = spec['props']
    if p in ('val', 'val code', 'text'):
        a = prop_of(new, 'val')
        match(with_props(new, '', a = a), [w + (float(v),) for w, v in zip(want, vals)], 'merged properties')
    if p == 'val code':
        a = prop_of(new, 'code')
        match(with_props(new, '', a = a), [w + (float(v + 1),) for w, v in zip(want, vals)], 'merged discrete properties')
    if p == 'text':
        pr = rqp.Property(t, uuid = t.uuid(title = 'val', related_uuid = u))
        ok(pr.is_categorical() and pr.string_lookup().get_string(3) == 'v3', 'lookup of merged property')
    if p == 'points':
        pr = rqp.Property(t, uuid = t.uuid(title = 'val', related_uuid = u))
        a = pr.array_ref()
        match([x + tuple(float(z) for z in y) for x, y in zip(items(new), a)], [w + tuple(float(z) for z in y) for w, y in zip(want, pts)], 'merged points properties')


NEXUS = st.fixed_dictionaries(dict(n = extents, feats = st.lists(st.integers(0, 4), min_size = 1, max_size = 3, unique = True), seed = seeds, d = st.sampled_from([0.3, 0.7, 1.0]), sides = st.sampled_from(['one', 'minus', 'both']), mult = st.sampled_from(['none', 'random', 'constant', 'two']), flips = st.booleans(), same = st.booleans(), func = st.sampled_from(['class', 'class', 'add', 'two files']), tdict = st.booleans(), again = st.booleans()))


@check('simulator', NEXUS, quick = 300, thorough = 15000, shards = 6, rule = 'at least three connections and multipliers that vary')
def simulator(spec, ctx):
    """Simulator text written for a set and read back."""
    m = ctx.new_model()
    n = tuple(spec['n'])
    g = make_grid(m, n)
    names, fis = {}, []
    for x in NAMES:
        i = make_fi(m, x)
        names[str(i.uuid)] = x
        fis.append(str(i.uuid))
    rng = np.random.default_rng(spec['seed'])
    gcs, want = None, []
    for f in spec['feats']:
        masks = masks_for(n, rng, spec['d'])
        sides = [rng.random(x.shape) < 0.5 if spec['flips'] else np.zeros(x.shape, dtype = bool) for x in masks]
        ps = pairs_of_masks(masks, sides)
        if not ps:
            continue
        one = rqf.GridConnectionSet(m, grid = g, k_faces = masks[0], j_faces = masks[1], i_faces = masks[2], k_sides = sides[0], j_sides = sides[1], i_sides = sides[2], feature_name = NAMES[f], create_organizing_objects_where_needed = True)
        want += [(fis[f],) + p for p in ps]
        if gcs is None:
            gcs = one
        else:
            gcs.append(one)
    if gcs is None:
        return
    mu = spec['mult']
    mult = {'none': np.ones(len(want)), 'constant': np.full(len(want), 0.25), 'random': rng.integers(0, 4, len(want)) * 0.5, 'two': np.array([1.5 if w[0] == want[0][0] else 0.125 for w in want])}[mu]
    gcs.write_hdf5()
    gcs.create_xml()
    tu = None
    if mu != 'none':
        pc = gcs.extract_property_collection()
        pc.add_cached_array_to_imported_list(mult, 'test', 'tm', uom = 'Euc', property_kind = 'transmissibility multiplier', indexable_element = 'faces')
        pc.write_hdf5_for_imported_list()
        tu = pc.create_xml_for_imported_list_and_add_parts_to_model()[0]
    gu = gcs.uuid
    m = ctx.reopen(m)
    gcs = rqf.GridConnectionSet(m, uuid = gu, find_properties = spec['again'])
    path = ctx.path('faults.inc')
    kw = dict(include_both_sides = spec['sides'] == 'both', use_minus = spec['sides'] == 'minus', trans_mult_uuid = tu)
    gcs.write_simulator(path, **kw)
    ctx.nontrivial(len(want) >= 3 and len(set(mult)) > 1)
    ctx.label(spec['sides'])
    same_items(gcs, want, 'after writing')
    t = m
    if not spec['same']:
        t = ctx.new_model('target')
        make_grid(t, n)
    tg = t.grid()
    tdict = {'f1': 0.5, 'BETA_3': 3.0} if spec['tdict'] else None
    func = spec['func']
    if func == 'class':
        new = rqf.GridConnectionSet(t, grid = tg, ascii_load_format = 'nexus', ascii_file = path, create_organizing_objects_where_needed = True, create_transmissibility_multiplier_property = True, fault_tmult_dict = tdict, title = 'read')
        new.write_hdf5()
        new.create_xml()
        u = new.uuid
    else:
        files = path
        if func == 'two files':  # one per feature
            files = []
            for f in range(len(gcs.feature_list)):
                one = gcs.single_feature(f)
                if tu is not None:
                    one.inherit_properties_for_selected_indices(rqf.GridConnectionSet(m, uuid = gu, find_properties = True), gcs.indices_for_feature_index(f))
                one.write_hdf5()
                one.create_xml()
                otu = None if tu is None else m.uuid(related_uuid = one.uuid, title = 'tm')
                files.append(ctx.path(f'f{f}.inc'))
                one.write_simulator(files[-1], **dict(kw, trans_mult_uuid = otu))
        t.store_epc()
        u = rqf.add_connection_set_and_tmults(t, files, tdict)
    t = ctx.reopen(t)
    new = rqf.GridConnectionSet(t, uuid = u)
    exp = []
    for w, x in zip(want, mult):
        nm = names[w[0]].split()[0].upper()
        x *= {} .get(nm, 1.0) if tdict is None else {k.upper(): v for k, v in tdict.items()}.get(nm, 1.0)
        for s in {'one': [0], 'minus': [1], 'both': [0, 1]}[spec['sides']]:
            exp.append((nm,) + (w[1:3] if s == 0 else w[2:0:-1]) + (round(x, 4),))
    titles = {str(uu): title for _, uu, title in new.feature_list}
    for uu, title in titles.items():
        if spec['same']:
            ok(uu in names and names[uu].split()[0].upper() == title.split()[0].upper(), f'interpretation found for {title}')
    a = prop_of(new, 'TMULT')
    got = [(titles[x[0]].split()[0].upper(), x[1], x[2], round(float(v), 4)) for x, v in zip(items(new), a)]
    match(got, exp, 'read back')


VIEWS = st.fixed_dictionaries(dict(n = extents, feats = st.lists(st.integers(0, 4), min_size = 1, max_size = 3, unique = True), seed = seeds, d = st.sampled_from([0.15, 0.5]), reload = st.booleans(), meta = st.sampled_from(['none', 'all', 'some']), lo = st.integers(0, 3), hi = st.integers(0, 3), act = st.booleans(), baffle = st.booleans(), lazy = st.booleans(), mode = st.sampled_from(['minimum', 'multiply', 'maximum', 'exception']), fill = st.sampled_from([1.0, None, 0.0, 7.0]), handling = st.sampled_from(['default', 'mean', 'min', 'max', 'any', 'exception']), discrete = st.booleans(), cls = st.sampled_from(['regular', 'irregular']), flips = st.booleans(), null = st.sampled_from(['default', -99.0])))


def face_key(side):
    """Identifies a grid face by axis and index in the grid face array."""
    c, a, q = side
    c = list(c)
    c[a] += q
    return a, tuple(c)


@check('views', VIEWS, quick = 300, thorough = 15000, shards = 8, rule = 'at least four connections')
def views(spec, ctx):
    """Views of a connection set against enumeration over its items."""
    m = ctx.new_model()
    n = tuple(spec['n'])
    g = make_grid(m, n, cls = spec['cls'])
    names, fis, fmult = {}, [], {}
    rng = np.random.default_rng(spec['seed'])
    for k, x in enumerate(NAMES):
        f = rqo.TectonicBoundaryFeature(m, feature_name = x, kind = 'fault')
        f.create_xml()
        mt = None if spec['meta'] == 'none' or spec['meta'] == 'some' and k % 2 else 0.5 + k
        i = rqo.FaultInterpretation(m, title = x, tectonic_boundary_feature = f, is_normal = True, extra_metadata = {} if mt is None else {'Transmissibility multiplier': str(mt)})
        i.create_xml()
        names[str(i.uuid)] = x
        fis.append(str(i.uuid))
        fmult[str(i.uuid)] = mt
    gcs, want = None, []
    for f in spec['feats']:
        masks = masks_for(n, rng, spec['d'])
        sides = [rng.random(x.shape) < 0.5 if spec['flips'] else np.zeros(x.shape, dtype = bool) for x in masks]
        ps = pairs_of_masks(masks, sides)
        if not ps:
            continue
        one = rqf.GridConnectionSet(m, grid = g, k_faces = masks[0], j_faces = masks[1], i_faces = masks[2], k_sides = sides[0], j_sides = sides[1], i_sides = sides[2], feature_name = NAMES[f], create_organizing_objects_where_needed = True)
        want += [(fis[f],) + p for p in ps]
        if gcs is None:
            gcs = one
        else:
            gcs.append(one)
    if gcs is None:
        return
    N = len(want)
    ctx.nontrivial(N >= 4)
    vals = rng.integers(1, 50, N) / 4.0
    codes = rng.integers(0, 9, N)
    active = rng.random(N) < 0.6 if spec['act'] else np.ones(N, dtype = bool)
    baffle = rng.random(N) < 0.3
    gcs.write_hdf5()
    gcs.create_xml()
    pc = gcs.extract_property_collection()
    kw = dict(indexable_element = 'faces')
    pc.add_cached_array_to_imported_list(vals, 'test', 'tm', uom = 'Euc', property_kind = 'transmissibility multiplier', **kw)
    pc.add_cached_array_to_imported_list(codes, 'test', 'code', discrete = True, property_kind = 'code', null_value = -1, **kw)
    if spec['act']:
        pc.add_cached_array_to_imported_list(active.astype(np.uint8), 'test', 'active', discrete = True, property_kind = 'active', null_value = 255, **kw)
    pc.add_cached_array_to_imported_list(baffle.astype(int), 'test', 'baffle', discrete = True, property_kind = 'baffle', null_value = -1, **kw)
    pc.write_hdf5_for_imported_list()
    uu = [str(x) for x in pc.create_xml_for_imported_list_and_add_parts_to_model()]
    vu, cu = uu[:2]
    bf = uu[-1]
    gu = gcs.uuid
    m = ctx.reopen(m)
    fresh = lambda: rqf.GridConnectionSet(m, uuid = gu, find_properties = True)
    gcs = fresh()
    order = items(gcs)
    ok(order == want, 'items of the stored set')
    feats = [str(u) for _, u, _ in gcs.feature_list]
    nf = len(feats)
    eq((gcs.number_of_grids(), gcs.number_of_features()), (1, nf), 'numbers of grids, features')
    eq(gcs.list_of_feature_names(strip = False), [names[f] for f in feats], 'feature names')
    eq(gcs.list_of_fault_names(), [names[f].split()[0] for f in feats], 'fault names')
    # lists of pairs
    for f in [None] + list(range(nf)):
        sel = [e for e in range(N) if f is None or order[e][0] == feats[f]]
        c, fp = fresh().list_of_cell_face_pairs_for_feature_index(f)
        arr_eq(c, np.array([[order[e][1 + p][0] for p in range(2)] for e in sel]), f'cells of feature {f}')
        arr_eq(fp, np.array([[order[e][1 + p][1:] for p in range(2)] for e in sel]), f'faces of feature {f}')
        if f is not None:
            eq(gcs.feature_name_for_feature_index(f, strip = False), names[feats[f]], 'feature name')
            i, u = gcs.feature_index_and_uuid_for_fault_name(names[feats[f]])
            eq((i, str(u)), (f, feats[f]), 'index and uuid for fault name')
            rc, rf = fresh().raw_list_of_cell_face_pairs_for_feature_index(f)
            arr_eq(rc, np.array([[np.ravel_multi_index(order[e][1 + p][0], n) for p in range(2)] for e in sel]), 'raw cells')
            arr_eq(rf, np.array([[CODE[order[e][1 + p][1:]] for p in range(2)] for e in sel]), 'raw faces')
            js, is_ = fresh().simplified_sets_of_kelp_for_feature_index(f)
            wj = {tuple(k - (a == x) * (1 - q) for x, k in ((1, c[1]), (2, c[2]))) for e in sel for c, a, q in order[e][1:] if a == 1}
            wi = {tuple(k - (a == x) * (1 - q) for x, k in ((1, c[1]), (2, c[2]))) for e in sel for c, a, q in order[e][1:] if a == 2}
            eq({tuple(int(v) for v in x) for x in js}, wj, 'J kelp')
            eq({tuple(int(v) for v in x) for x in is_}, wi, 'I kelp')
    arr_eq(gcs.compact_indices(), np.array([[6 * np.ravel_multi_index(x[1 + p][0], n) + CODE[x[1 + p][1:]] for p in range(2)] for x in order]), 'compact indices')
    by_face = {}
    for e, x in enumerate(order):
        for p in range(2):
            by_face.setdefault(x[1 + p], []).append(feats.index(x[0]))
    for _ in range(12):
        cell = tuple(int(rng.integers(0, x)) for x in n)
        a, q = int(rng.integers(0, 3)), int(rng.integers(0, 2))
        got = gcs.feature_index_for_cell_face(cell, a, q)
        w = by_face.get((cell, a, q))
        ok((got is None) == (w is None) and (got is None or int(got) in w), f'feature {got} for cell face {(cell, a, q)}, of {w}')
    # face arrays of the grid
    def face_arrays(values, keep, default, sided):
        out = [np.full(tuple(x + (b == a) for b, x in enumerate(n)), default, dtype = float) for a in range(3)]
        for p in range(2 if sided else 1):
            for e in range(N):
                if keep[e]:
                    a, i = face_key(order[e][1 + p])
                    out[a][i] = values[e]
        return out
    for f in [None] + list(range(nf)):
        for act in (True, False):
            for b in (False, True):
                v = np.where(baffle, 0.0, vals) if b else vals
                keep = [(f is None or order[e][0] == feats[f]) and (active[e] or not act) for e in range(N)]
                got = fresh().grid_face_arrays(vu, feature_index = f, active_only = act, lazy = spec['lazy'], baffle_uuid = bf if b else None)
                counts = {}
                for e in range(N):
                    if keep[e]:
                        counts.setdefault(face_key(order[e][1]), set()).add(v[e])
                wa = face_arrays(v, keep, np.nan, not spec['lazy'])
                for a in range(3):
                    eq(got[a].shape, wa[a].shape, 'shape of face array')
                    arr_eq(np.isnan(got[a]), np.isnan(wa[a]), f'faces with a value, feature {f}, active only {act}, baffle {b}')
                    for i in np.argwhere(~np.isnan(wa[a])):
                        i = tuple(int(x) for x in i)
                        ok(float(got[a][i]) in counts[(a, i)], f'value of face {"KJI"[a]} {i}: {got[a][i]}, not of {counts[(a, i)]}')
    keep = list(active)
    got = fresh().grid_face_arrays(cu, default_value = 77)
    for a, w in enumerate(face_arrays(codes, keep, 77, True)):
        arr_eq(got[a] != 77, w != 77, 'faces with a code')
        ok(got[a].dtype.kind == 'i', 'discrete face array')
    # column edges
    lo, hi = sorted((min(spec['lo'], n[0] - 1), min(spec['hi'], n[0] - 1)))
    combined = None
    for f in range(nf):
        edges = {(c[1], c[2], a - 1, q) for x in order if x[0] == feats[f] and all(lo <= x[1 + p][0][0] <= hi for p in range(2)) for c, a, q in x[1:] if a}
        l = fresh().get_column_edge_list_for_feature(f, min_k = lo, max_k = hi)
        got = [] if l is None else [tuple(int(v) for v in x) for x in l]
        eq(len(set(got)), len(got), 'column edges listed once')
        eq(set(got), edges, f'column edges of feature {f}, layers {lo} to {hi}')
        b = fresh().get_column_edge_bool_array_for_feature(f, min_k = lo, max_k = hi)
        eq(b.shape, (n[1], n[2], 2, 2), 'shape of column edge array')
        eq({tuple(int(v) for v in x) for x in np.argwhere(b)}, edges, 'column edge array')
        fm = fmult[feats[f]]
        v = fresh().get_column_edge_float_array_for_feature(f, b, ref_k = lo)
        at = {}
        for e, x in enumerate(order):
            if x[0] == feats[f] and all(x[1 + p][0][0] == lo for p in range(2)):
                for c, a, q in x[1:]:
                    if a:
                        at.setdefault((c[1], c[2], a - 1, q), set()).add(vals[e] if fm is None else fm)
        if fm is not None:
            ok(v is not None, 'no column edge values')
            arr_eq(v, np.where(b, fm, np.nan), 'column edge values from multiplier of feature')
        elif v is None:
            ok(not any(x[0] == feats[f] and all(x[1 + p][0][0] == lo for p in range(2)) for x in order), 'no column edge values')
        else:
            eq({tuple(int(z) for z in x) for x in np.argwhere(~np.isnan(v))}, set(at), 'column edges with values')
            for i in at:
                ok(v[i] in at[i], f'value of column edge {i}')
    got = fresh().get_property_by_feature_index_list()
    arr_eq(np.array(got), np.array([np.nan if fmult[f] is None else fmult[f] for f in feats]), 'multipliers of features')
    cm, ci, cv = fresh().get_combined_fault_mask_index_value_arrays(min_k = lo, max_k = hi)
    by = {}
    for x in order:
        if all(lo <= x[1 + p][0][0] <= hi for p in range(2)):
            for c, a, q in x[1:]:
                if a:
                    by.setdefault((c[1], c[2], a - 1, q), set()).add(feats.index(x[0]))
    eq({tuple(int(z) for z in x) for x in np.argwhere(cm)}, set(by), 'combined mask')
    for i in np.ndindex(n[1], n[2], 2, 2):
        ok(int(ci[i]) in by.get(i, {-1}), f'combined index {ci[i]} of column edge {i}')
    if spec['meta'] == 'all':
        for i in np.ndindex(n[1], n[2], 2, 2):
            ok(np.isnan(cv[i]) if i not in by else cv[i] == fmult[feats[int(ci[i])]], f'combined value of column edge {i}')
    # combined multipliers, one set per feature plus the whole
    one = fresh().single_feature(nf - 1)
    oi = fresh().indices_for_feature_index(nf - 1)
    one.write_hdf5()
    one.create_xml()
    p2 = one.extract_property_collection()
    v2 = rng.integers(1, 50, len(oi)) / 8.0
    p2.add_cached_array_to_imported_list(v2, 'test', 'tm', uom = 'Euc', property_kind = 'transmissibility multiplier', **kw)
    p2.write_hdf5_for_imported_list()
    u2 = p2.create_xml_for_imported_list_and_add_parts_to_model()[0]
    per = {}  # face: values from the first set, values from the second set
    sided = spec['mode'] != 'multiply'
    bv = np.where(baffle, 0.0, vals) if spec['baffle'] else vals
    for e in range(N):
        if active[e]:
            for p in range(2 if sided else 1):
                per.setdefault(face_key(order[e][1 + p]), (set(), set()))[0].add(bv[e])
    for e, x in zip(oi, v2):
        per.setdefault(face_key(order[e][1]), (set(), set()))[1].add(x)
    single = all(len(x) <= 1 for y in per.values() for x in y)
    clash = any(x and y for x, y in per.values())
    cargs = dict(merge_mode = spec['mode'], fill_value = spec['fill'], apply_baffles = spec['baffle'])
    if spec['mode'] == 'exception' and clash:
        ok(raises(lambda: rqf.combined_tr_mult_from_gcs_mults(m, [vu, u2], **cargs), ValueError), 'clashing multipliers accepted')
    elif single or spec['mode'] in ('exception',):
        got = rqf.combined_tr_mult_from_gcs_mults(m, [vu, u2], **cargs)
        fn = {'minimum': min, 'maximum': max, 'multiply': lambda x: np.prod(list(x)), 'exception': min}[spec['mode']]
        for a in range(3):
            eq(got[a].shape, tuple(x + (b == a) for b, x in enumerate(n)), 'shape of combined multipliers')
            for i in np.ndindex(*got[a].shape):
                w = per.get((a, i))
                if w is None:
                    ok(np.isnan(got[a][i]) if spec['fill'] is None else got[a][i] == spec['fill'], f'multiplier of face {(a, i)} not in the sets: {got[a][i]}')
                elif single:
                    close(float(got[a][i]), float(fn([y for x in w for y in x])), 1e-9, f'combined multiplier of face {(a, i)}')
    # map of the K faces
    pu, pv = (cu, codes) if spec['discrete'] else (vu, vals)
    cols = {}
    for e, x in enumerate(order):
        if x[1][1] == 0:
            cols.setdefault(x[1][0][1:], []).append(float(pv[e]))
    h = spec['handling']
    nkw = {} if spec['null'] == 'default' else dict(null_value = -99.0)
    call = lambda: rqf.grid_columns_property_from_gcs_property(m, pu, title = 'map', multiple_handling = h, **nkw)
    if h == 'exception' and any(len(x) > 1 for x in cols.values()):
        ok(raises(call, ValueError), 'several K faces accepted')
    elif not (h == 'mean' and spec['discrete']):
        u = call()
        pr = rqp.Property(m, uuid = u)
        eq((pr.title, pr.indexable_element(), pr.is_continuous(), str(pr.collection.support_uuid)), ('map', 'columns', not spec['discrete'], str(g.uuid)), 'map property')
        a = pr.array_ref()
        eq(a.shape, n[1:], 'shape of map')
        null = (-1 if spec['discrete'] else np.nan) if spec['null'] == 'default' else -99.0
        for c in np.ndindex(*a.shape):
            w = cols.get(c)
            if w is None:
                ok(a[c] == null or np.isnan(null) and np.isnan(a[c]), f'map value of column {c} without K faces: {a[c]}')
            elif h == 'any' or h == 'default' and spec['discrete']:
                ok(float(a[c]) in w, f'map value of column {c}')
            elif h in ('min', 'max'):
                eq(float(a[c]), min(w) if h == 'min' else max(w), f'map value of column {c}')
            else:
                close(float(a[c]), sum(w) / len(w), 1e-9, f'map value of column {c}')
    # surface
    if spec['cls'] == 'irregular' or True:
        f = int(rng.integers(0, nf))
        sg = fresh()
        surf = sg.surface(f)
        t, p = surf.triangles_and_points()
        cen = []
        faces = [x[1] for x in order if x[0] == feats[f]]
        eq(len(t), 2 * len(faces), 'number of triangles')
        d = (10.0, 20.0, 2.0)
        for e, s in enumerate(faces):
            a, i = face_key(s)
            lo_ = np.array([i[2] * d[0], i[1] * d[1], i[0] * d[2]])
            hi_ = lo_ + [d[0] * (a != 2), d[1] * (a != 1), d[2] * (a != 0)]
            q = p[t[2 * e:2 * e + 2].flatten()]
            ok(np.allclose(q.min(axis = 0), lo_) and np.allclose(q.max(axis = 0), hi_), f'triangles of face {s}')
            ar = sum(0.5 * np.linalg.norm(np.cross(p[x[1]] - p[x[0]], p[x[2]] - p[x[0]])) for x in t[2 * e:2 * e + 2])
            close(float(ar), float(np.prod([x for x in hi_ - lo_ if x])), 1e-6, 'area of triangles of a face', 1e-9)


SKIN = st.fixed_dictionaries(dict(n = extents, second = st.booleans(), d = st.sampled_from([0.0, 0.3, 0.6]), seed = seeds, kind = st.sampled_from(list(KINDS)), title = st.booleans()))


@check('skin', SKIN, quick = 150, thorough = 8000, shards = 4, rule = 'at least three faces')
def skin(spec, ctx):
    m = ctx.new_model()
    n = tuple(spec['n'])
    g = make_grid(m, n, 'second' if spec['second'] else 'ROOT')
    if spec['second']:
        make_grid(m, (1, 2, 3))
    mask = np.random.default_rng(spec['seed']).random(n) < spec['d']
    gcs = rqf.cell_set_skin_connection_set(g, mask.copy(), 'skin', feature_type = spec['kind'], title = 'shell' if spec['title'] else None)
    want = []
    for c in np.ndindex(*n):
        for a in range(3):
            o = tuple(x + (b == a) for b, x in enumerate(c))
            if o[a] < n[a] and mask[c] != mask[o]:
                want.append(pair(c, a))
    t, u, title = gcs.feature_list[0]
    eq((t, title, gcs.title), (KINDS[spec['kind']], 'skin', 'shell' if spec['title'] else 'skin'), 'feature and title')
    want = [(str(u),) + w for w in want]
    ctx.nontrivial(len(want) >= 3)
    eq(str(gcs.grid_list[0].uuid), str(g.uuid), 'grid')
    same_items(gcs, want, 'skin')
    if want:
        m, gcs = stored(ctx, gcs, m)
        same_items(gcs, want, 'skin, stored')


INH = st.fixed_dictionaries(dict(n = extents, a = st.lists(st.integers(0, 4), min_size = 1, max_size = 3, unique = True), b = st.lists(st.integers(0, 4), min_size = 1, max_size = 3, unique = True), seed = seeds, d = st.sampled_from([0.3, 0.7]), other = st.booleans(), loaded = st.booleans(), flip = st.booleans()))


@check('inherit', INH, quick = 200, thorough = 10000, shards = 4, rule = 'some but not all faces of the set inherit a feature')
def inherit(spec, ctx):
    """Features inherited from another set for the faces which are also in that set."""
    m = ctx.new_model()
    n = tuple(spec['n'])
    g = make_grid(m, n)
    fis = [str(make_fi(m, x).uuid) for x in NAMES]
    names = dict(zip(fis, NAMES))
    rng = np.random.default_rng(spec['seed'])
    # each face is in at most one feature of either set
    def disjoint(mm, gg, feats):
        owner = [rng.integers(0, len(feats), faces_of(n, a)) for a in range(3)]
        present = masks_for(n, rng, spec['d'])
        gcs, want = None, []
        for k, f in enumerate(feats):
            masks = [p & (o == k) for p, o in zip(present, owner)]
            sides = [rng.random(x.shape) < 0.5 if spec['flip'] else np.zeros(x.shape, dtype = bool) for x in masks]
            ps = pairs_of_masks(masks, sides)
            if not ps:
                continue
            one = rqf.GridConnectionSet(mm, grid = gg, k_faces = masks[0], j_faces = masks[1], i_faces = masks[2], k_sides = sides[0], j_sides = sides[1], i_sides = sides[2], feature_name = NAMES[f], create_organizing_objects_where_needed = True, title = 'set')
            want += [(fis[f],) + p for p in ps]
            if gcs is None:
                gcs = one
            else:
                gcs.append(one)
        return gcs, want
    gcs, want = disjoint(m, g, spec['a'])
    om, og = m, g
    if spec['other']:
        om = ctx.new_model('other')
        for u in [g.uuid] + fis:
            om.copy_uuid_from_other_model(m, u)
        og = om.grid(uuid = g.uuid, find_properties = False)
    feat, fwant = disjoint(om, og, spec['b'])
    if gcs is None or feat is None:
        return
    if spec['loaded']:
        om2, feat = stored(ctx, feat, om)
        if om is m:
            m = om2
            gcs.model = m
        om = om2
        if not spec['other']:
            g = m.grid()
        gcs.write_hdf5()
        gcs.create_xml()
        gcs = rqf.GridConnectionSet(m, uuid = gcs.uuid)
    own = {frozenset(x[1:]): x[0] for x in fwant}
    exp = [(own.get(frozenset(x[1:]), x[0]),) + x[1:] for x in want]
    k = sum(frozenset(x[1:]) in own for x in want)
    ctx.nontrivial(0 < k < len(want))
    gcs.inherit_features(feat)
    same_items(gcs, exp, 'inherited')
    names_ok(gcs, names, 'inherited')
    same_items(feat, fwant, 'the set inherited from')
    used = {x[0] for x in exp}
    ok(used <= {str(u) for _, u, _ in gcs.feature_list}, 'features listed')


MULTI = st.fixed_dictionaries(dict(ns = st.lists(extents, min_size = 2, max_size = 3), count = st.integers(1, 12), nf = st.integers(1, 3), seed = seeds, cache = st.booleans()))


@check('grids', MULTI, quick = 120, thorough = 6000, shards = 4, rule = 'connections between different grids')
def grids(spec, ctx):
    """Sets of connections between several grids."""
    m = ctx.new_model()
    gs = [make_grid(m, x, 'ROOT' if k == 0 else f'g{k}') for k, x in enumerate(spec['ns'])]
    fi = [make_fi(m, x) for x in NAMES[:spec['nf']]]
    rng = np.random.default_rng(spec['seed'])
    N = spec['count']
    gcs = rqf.GridConnectionSet(m, grid = gs[0], title = 'multi')
    gcs.grid_list = gs
    gcs.count = N
    gcs.grid_index_pairs = rng.integers(0, len(gs), (N, 2))
    gcs.cell_index_pairs = np.array([[rng.integers(0, gs[x].cell_count()) for x in r] for r in gcs.grid_index_pairs])
    gcs.face_index_pairs = rng.integers(0, 6, (N, 2))
    gcs.feature_indices = rng.integers(0, len(fi), N)
    gcs.feature_list = [('obj_FaultInterpretation', x.uuid, x.title) for x in fi]
    ctx.nontrivial(bool(np.any(gcs.grid_index_pairs[:, 0] != gcs.grid_index_pairs[:, 1])))
    want = items(gcs)
    m, h = stored(ctx, gcs, m, spec['cache'])
    eq([str(x.uuid) for x in h.grid_list], [str(x.uuid) for x in gs], 'grids')
    same_items(h, want, 'stored', ordered = True)
    for f in [None] + list(range(len(fi))):
        sel = [x for x in want if f is None or x[0] == str(fi[f].uuid)]
        c, p, gi = h.list_of_cell_face_pairs_for_feature_index(f)
        eq(len(c), len(sel), 'number of pairs')
        for e, x in enumerate(sel):
            for s in range(2):
                eq((int(gi[e, s]), tuple(int(v) for v in c[e, s])) + tuple(int(v) for v in p[e, s]), x[1 + s], f'pair of feature {f}')
        if f is not None and sel:
            one = h.single_feature(f)
            eq([str(x.uuid) for x in one.grid_list], [str(x.uuid) for x in gs], 'grids of single feature')
            same_items(one, sel, 'single feature')
