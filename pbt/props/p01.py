"""Generated properties of every class on generated supporting representations, compared after creation and after reopening with the arrays and metadata they were given; extremes and masks are recomputed with numpy.

Two routes are driven: Property.from_array() one at a time, and a property collection's imported list written in one go. Slices, overwritten slices, shapes and types, and copies of parts of a collection into another are read through the collection. A packed boolean is read with a boolean type requested (its documented use). Time indices are only given together with a time series, as the standard requires."""
import numpy as np

import resqpy.model as rq
import resqpy.grid as grr
import resqpy.olio.uuid as bu
import resqpy.property as rqp
import resqpy.time_series as rts

from pbt.core import *
from pbt.lib.gen import *
from pbt.lib import props as P
from pbt.lib import zoo as Z

STD_C = ['porosity', 'pressure', 'length', 'depth', 'net to gross ratio', 'saturation', 'rock permeability', 'permeability rock', 'velocity', 'thickness']
STD_D = ['index', 'code', 'cell length', 'index']
UOMS = ['m', 'm3/m3', 'Euc', 'kPa', 'mD', '%', 'my own unit', 'ft', 'psi']
FACETS = [('what', 'oil'), ('direction', 'I'), ('direction', 'IJK'), ('netgross', 'net'), ('qualifier', 'a b & <c>'), ('conditions', 'surface'), ('statistics', 'mean'), ('what', 'Éa')]
I32 = 2**31 - 1

PROP = st.fixed_dictionaries(dict(cls = st.sampled_from(['cont', 'cont', 'cont', 'disc', 'disc', 'cat', 'bool', 'bool', 'points']), elem = st.integers(0, 20), count = st.sampled_from([1, 1, 1, 2, 3]), const = st.sampled_from([False, False, False, True]), seed = seeds,
                                  nulls = st.sampled_from([0.0, 0.0, 0.3, 0.7, 1.0]), null_value = st.sampled_from([None, None, -1, 0, 7, -999, 255]), realization = st.sampled_from([None, None, 0, 1, 12]), time = opt(st.tuples(st.integers(0, 1), st.integers(0, 2)).map(list)),
                                  facet = opt(st.integers(0, len(FACETS) - 1)), kind = st.sampled_from(['std', 'std', 'uuid', 'uuid_only', 'title', 'new', 'abstract', 'infer']), k = st.integers(0, 9), uom = opt(st.sampled_from(UOMS)),
                                  src = st.integers(0, 3), dtype = st.integers(0, 5), pack = st.booleans(), expand = st.booleans(), chunks = st.sampled_from([None, None, 'auto', 'all', 'slice']), comp = st.sampled_from([None, None, 'gzip', 'lzf']),
                                  title = Z.TITLES, extra = st.dictionaries(Z.PLAIN, Z.TITLES, max_size = 2), source = st.sampled_from([None, 'some file.txt', '']), order = st.sampled_from(['C', 'C', 'F']), big = st.booleans(), default_elem = st.booleans()))


@st.composite
def specs(draw):
    return dict(support = draw(st.sampled_from(P.SUPPORTS)), dims = draw(P.DIMS), seed = draw(seeds), inactive = draw(opt(seeds)), props = draw(st.lists(PROP, min_size = 1, max_size = 4)), route = draw(st.sampled_from(['one', 'one', 'list'])),
                after = draw(st.lists(st.tuples(st.sampled_from(['slice', 'over']), seeds, st.integers(0, 3)).map(list), max_size = 2)))


class World:

    def __init__(self, m):
        self.ts = []
        for i in range(2):
            t = rts.TimeSeries(m, first_timestamp = f'200{i}-01-01Z', title = f'ts {i}')
            t.extend_by_days(10)
            t.extend_by_days(20)
            t.create_xml()
            self.ts.append(t.uuid)
        self.pk = []
        for i, parent in enumerate(('continuous', 'discrete')):
            p = rqp.PropertyKind(m, title = f'own kind {parent}', parent_property_kind = parent, example_uom = 'm' if not i else None)
            p.create_xml()
            self.pk.append(p.uuid)
        s = rqp.StringLookup(m, int_to_str_dict = {i: f's{i}' for i in range(4)}, title = 'lookup')
        s.create_xml()
        self.sl = s.uuid


def plan(w, p, elements, default, route):
    """Returns (arguments, expectation) for a property."""
    cls = p['cls']
    names = [e for e in elements]
    name = default if p['default_elem'] else names[p['elem'] % len(names)]
    shape = list(elements[name])
    elem, facet = name, None if p['facet'] is None or cls == 'points' else FACETS[p['facet']]
    if name.startswith('faces ') and len(name) == 7:
        elem = 'faces'
        facet = ('direction', name[-1])
        if cls == 'points':
            name = elem = default
            shape, facet = list(elements[default]), None
    elif name == 'faces' and facet is not None and facet[0] == 'direction':
        facet = None
    count = p['count']
    const = p['const'] and cls != 'points'
    full = tuple(shape + ([count] if count > 1 else []) + ([3] if cls == 'points' else []))
    rng = np.random.default_rng(p['seed'])
    discrete = cls in ('disc', 'cat', 'bool')
    null = p['null_value'] if cls in ('disc', 'cat') else None
    wd = None
    if cls in ('cont', 'points'):
        src = ['float64', 'float32', 'float64', 'float64'][p['src']]
        wd = [None, None, None, np.float32, np.float64, 'float32'][p['dtype']]
        a = (rng.random(full) * 10.0**rng.integers(-4, 8) - (100.0 if p['big'] else 0.0)).astype(src)
        if cls == 'cont':
            a[rng.random(full) < p['nulls']] = np.nan
        cv = float(a.reshape(-1)[0]) if a.size else 0.5
    elif cls == 'bool':
        src = 'bool'
        wd = [None, None, bool, 'bool', 'uint8', 'pack'][p['dtype']]
        if wd == 'pack' and (route == 'list' or p['const']):
            wd = None
        a = rng.random(full) < p['nulls']
        cv = bool(a.reshape(-1)[0]) if a.size else True
    else:
        src = ['int32', 'int64', 'int16', 'uint8'][p['src']]
        wd = [None, None, None, np.int32, 'int64', np.int16][p['dtype']]
        lo, hi = (0, 3) if cls == 'cat' else (-5, 60)
        if p['big'] and cls == 'disc' and src in ('int32', 'int64') and wd is not np.int16:
            lo, hi = -I32, I32
        if src == 'uint8':
            lo = max(lo, 0)
        a = rng.integers(lo, hi, size = full, endpoint = True).astype(src)
        if null is not None:
            if (src == 'uint8' and null < 0):
                null = 255
            a[rng.random(full) < p['nulls']] = null
        cv = int(a.reshape(-1)[0]) if a.size else 3
    if p['order'] == 'F':
        a = np.asfortranarray(a)
    if route == 'list':
        wd = None
    elif const and not p['expand']:
        wd = None
    store = a
    if const:
        store = np.full(full, cv)
        if wd is not None and wd != 'pack':
            store = store.astype(wd)
    elif wd is not None and wd != 'pack':
        store = a.astype(wd)
    pack = cls == 'bool' and (wd == 'pack' or (p['pack'] and wd in (None, bool, 'bool'))) and not (const and not p['expand'])
    kw = dict(keyword = p['title'], discrete = discrete, count = count, points = cls == 'points', realization = p['realization'], null_value = null, source_info = p['source'])
    kw['indexable_element'] = None if p['default_elem'] else elem
    if facet:
        kw['facet_type'], kw['facet'] = facet
    ts = None
    if p['time'] is not None:
        ts = w.ts[p['time'][0]]
        kw['time_series_uuid'], kw['time_index'] = ts, p['time'][1]
    kind, lk = p['kind'], None
    own = w.pk[1 if discrete else 0]
    title_own = 'own kind ' + ('discrete' if discrete else 'continuous')
    want_kind, want_lk = None, None
    if kind == 'std' or (cls == 'points' and kind in ('abstract', 'infer')):
        std = (STD_D if discrete else STD_C)
        kw['property_kind'] = std[p['k'] % len(std)]
        want_kind, want_lk = ('rock permeability' if kw['property_kind'] == 'permeability rock' else kw['property_kind']), 'none'
    elif kind == 'uuid':
        kw['property_kind'], kw['local_property_kind_uuid'] = title_own, own
        want_kind, want_lk = title_own, own
    elif kind == 'uuid_only':
        kw['local_property_kind_uuid'] = own
        want_kind, want_lk = title_own, own
    elif kind == 'title':
        kw['property_kind'] = title_own
        want_kind, want_lk = title_own, own
    elif kind == 'new':
        kw['property_kind'] = f'new kind {int(discrete)} {p["k"] % 3}'
        want_kind, want_lk = kw['property_kind'], 'some'
    elif kind == 'abstract':
        kw['property_kind'] = 'categorical' if cls == 'cat' else 'discrete' if discrete else 'continuous'
        want_kind = p['title'].strip()
        want_lk = 'some' if kw['property_kind'] != 'categorical' else None
    if cls == 'cat':
        kw['string_lookup_uuid'] = w.sl
    if not discrete:
        kw['uom'] = p['uom']
    if const:
        kw['cached_array'], kw['const_value'] = None, cv
    else:
        kw['cached_array'] = a
    # extremes of the values that are not null
    if cls == 'points':
        ex = None
    else:
        v = (np.full(1, cv) if const else a).astype(np.float64).reshape(-1)
        v = v[~np.isnan(v)] if not discrete else v[v != null] if null is not None else v
        ex = (v.min(), v.max()) if v.size else None
    want = dict(array = store, cls = cls, elem = elem, facet = facet, count = count, realization = p['realization'], null = null, ts = ts, ti = p['time'][1] if p['time'] else None, kind = want_kind, lk = want_lk, uom = kw.get('uom'), extremes = ex, title = p['title'].strip(),
                extra = {k.strip(): v.strip() for k, v in p['extra'].items()}, const = cv if const and not p['expand'] else None, pack = pack, discrete = discrete, sl = w.sl if cls == 'cat' else None, source = p['source'] or None, is_const = const, f32 = 'float32' in (src, str(wd)) or wd is np.float32, name = name)
    return kw, want


def exact(a, b):
    return a.shape == b.shape and np.array_equal(a, b, equal_nan = a.dtype.kind == 'f' and b.dtype.kind == 'f')


def compare(m, uuid, want, support_uuid, mask, when, extra_title = None):
    new = lambda: rqp.Property(m, uuid = uuid)
    x = new()
    eq(x.title, want['title'], f'{when}: title')
    cls = want['cls']
    eq(m.type_of_uuid(uuid), {'cont': 'obj_ContinuousProperty', 'disc': 'obj_DiscreteProperty', 'bool': 'obj_DiscreteProperty', 'cat': 'obj_CategoricalProperty', 'points': 'obj_PointsProperty'}[cls], f'{when}: type')
    eq((x.is_continuous(), x.is_points(), x.is_categorical()), (not want['discrete'], cls == 'points', cls == 'cat'), f'{when}: continuous, points, categorical')
    eq(x.indexable_element(), want['elem'], f'{when}: indexable element')
    eq(x.count(), want['count'], f'{when}: count')
    eq((x.facet_type(), x.facet()), want['facet'] or (None, None), f'{when}: facet')
    eq(x.realization(), want['realization'], f'{when}: realization')
    eq((str(x.time_series_uuid()), x.time_index()), (str(want['ts']), want['ti']), f'{when}: time series and index')
    eq(str(x.string_lookup_uuid()), str(want['sl']), f'{when}: string lookup')
    if want['sl'] is not None:
        eq(x.string_lookup().get_string(2), 's2', f'{when}: string of lookup')
    if want['discrete']:
        eq(x.null_value(), None if want['const'] is not None else -1 if want['null'] is None else want['null'], f'{when}: null value')  # -1 is written when none is given; a constant array has none
        eq(x.uom(), None, f'{when}: uom of a discrete property')
    else:
        ok(np.isnan(x.null_value()), f'{when}: null value of a continuous property')
        if want['uom'] is not None and cls != 'points':
            eq(x.uom(), want['uom'], f'{when}: uom')
    if want['kind'] is not None:
        eq(x.property_kind(), want['kind'], f'{when}: property kind')
    lk = x.local_property_kind_uuid()
    if want['lk'] == 'none':
        eq(lk, None, f'{when}: local property kind uuid')
    elif want['lk'] == 'some':
        ok(lk is not None, f'{when}: no local property kind')
    elif want['lk'] is not None:
        eq(str(lk), str(want['lk']), f'{when}: local property kind uuid')
    if lk is not None:
        eq(rqp.PropertyKind(m, uuid = lk).title, x.property_kind(), f'{when}: title of the local property kind')
    em = dict(x.extra_metadata or {})
    if want['uom'] == 'my own unit' and cls != 'points':
        em.pop('Uom', None)
    if want['source'] is not None:
        eq(em.pop('source', None), want['source'], f'{when}: source in extra metadata')
    eq(em, want['extra'], f'{when}: extra metadata')
    eq(str(m.supporting_representation_for_part(x.part)), str(support_uuid), f'{when}: supporting representation')
    eq(rqp_source(x), want['source'], f'{when}: source')
    cv = x.constant_value()
    if want['const'] is None:
        eq(cv, None, f'{when}: constant value')
    else:
        ok(cv is not None and (cv == want['const'] or (np.isnan(cv) and np.isnan(want['const']))), f'{when}: constant value {cv!r}, expected {want["const"]!r}')
    lo, hi = x.minimum_value(), x.maximum_value()
    if cls == 'points':
        pass
    elif want['extremes'] is None:
        eq((lo, hi), (None, None), f'{when}: extremes where all are null')
    elif lo is not None or hi is not None or (cls in ('cont', 'disc') and not (want['is_const'] and cls == 'bool')):
        e = want['extremes']
        if cls in ('disc', 'cat', 'bool') and mask is not None and want['null'] is not None and want['array'].shape == mask.shape:
            v = want['array'][~mask & (want['array'] != want['null'])]
            alt = (None, None) if not v.size else (v.min(), v.max())
        else:
            alt = e
        tol = 1e-6 if want['f32'] else 0.0
        near = lambda g, t: (g is None and t is None) or (g is not None and t is not None and abs(g - t) <= tol * abs(t) + 0.0)
        ok((near(lo, e[0]) and near(hi, e[1])) or (near(lo, alt[0]) and near(hi, alt[1])), f'{when}: stored extremes {lo!r}, {hi!r}, expected {e}')
    # array
    expect = want['array']
    asbool = dict(dtype = bool) if want['pack'] else {}
    a = x.array_ref(**asbool)
    ok(a is not None, f'{when}: no array')
    ok(exact(np.asarray(a), expect), f'{when}: array {a.shape} {a.dtype}: {np.asarray(a).reshape(-1)[:6]}..., expected {expect.shape} {expect.reshape(-1)[:6]}...')
    ok(a.dtype.kind in {'cont': 'f', 'points': 'f', 'disc': 'iu', 'cat': 'iu', 'bool': 'iub'}[cls], f'{when}: type of array {a.dtype}')
    ok(x.array_ref(**asbool) is a, f'{when}: array not cached')
    if cls == 'bool':
        ok(exact(new().array_ref(dtype = bool), expect.astype(bool)), f'{when}: array read as bool')
    elif cls == 'disc' and want['const'] is None:
        b = new().array_ref(dtype = float)
        ok(b.dtype.kind == 'f' and exact(b, expect.astype(float)), f'{when}: discrete array read as float')
    elif cls == 'cont' and want['const'] is None:
        b = new().array_ref(dtype = 'float32')
        ok(b.dtype == np.float32 and exact(b, expect.astype(np.float32)), f'{when}: array read as float32')
    # masks
    for ex in (False, True):
        b = new().array_ref(masked = True, exclude_null = ex, **asbool)
        ok(isinstance(b, np.ma.MaskedArray), f'{when}: masked array expected')
        ok(exact(np.asarray(b.data), expect), f'{when}: data of masked array')
        em = np.zeros(expect.shape, dtype = bool)
        lead = expect.shape[:mask.ndim] if mask is not None else None
        if mask is not None and want['name'] == 'cells':
            if want['count'] > 1:
                if mask.any():
                    continue  # not specified for several values per element
            else:
                em |= mask if cls != 'points' else mask[..., np.newaxis]
        elif mask is not None and expect.shape == mask.shape and mask.any():
            continue
        if ex:
            if not want['discrete']:
                em |= np.isnan(expect)
            elif want['const'] is None:
                em |= expect == (-1 if want['null'] is None else want['null'])
        ok(np.array_equal(np.ma.getmaskarray(b), em), f'{when}: mask (exclude null {ex}) has {np.ma.getmaskarray(b).sum()} elements, expected {em.sum()}')
    return x


def rqp_source(x):
    return x.collection.source_for_part(x.part)


@check('array', specs(), quick = 800, thorough = 30000, shards = 4, rule = 'at least one property with an array that varies, on an element other than the default one or with nulls, several values, packing or a local kind')
def array(spec, ctx):
    m = ctx.new_model()
    su, elements, default, mask = P.make_support(m, spec['support'], spec['dims'], spec['seed'], inactive = spec['inactive'])
    w = World(m)
    route = spec['route']
    made = []
    if route == 'one':
        for p in spec['props']:
            kw, want = plan(w, p, elements, default, route)
            x = rqp.Property.from_array(m, support_uuid = su, dtype = wdtype(p, want, kw), use_pack = p['pack'], expand_const_arrays = p['expand'], extra_metadata = p['extra'], chunks = p['chunks'], compression = p['comp'], **kw)
            made.append((x.uuid, want))
    else:
        p0 = spec['props'][0]
        pc = rqp.PropertyCollection()
        pc.set_support(support_uuid = su, model = m)
        kws = []
        for p in spec['props']:
            p = dict(p, expand = p0['expand'], pack = p0['pack'], extra = p0['extra'])
            kw, want = plan(w, p, elements, default, route)
            kws.append(kw)
            u = pc.add_cached_array_to_imported_list(**kw)
            made.append((u, want))
        eq(pc.number_of_imports(), len(made), 'number of imports')
        pc.write_hdf5_for_imported_list(expand_const_arrays = p0['expand'], use_pack = p0['pack'], chunks = p0['chunks'], compression = p0['comp'])
        uu = pc.create_xml_for_imported_list_and_add_parts_to_model(support_uuid = su, expand_const_arrays = p0['expand'], extra_metadata = p0['extra'])
        eq([str(u) for u in uu], [str(u) for u, _ in made], 'uuids of new properties')
        eq(pc.number_of_imports(), 0, 'number of imports after creation')
        eq(sorted(map(str, pc.uuids())), sorted(str(u) for u, _ in made), 'uuids in the collection')
    for u, want in made:
        compare(m, u, want, su, mask, 'before storing')
    m.store_epc(quiet = True)
    m = ctx.reopen(m)
    for u, want in made:
        compare(m, u, want, su, mask, 'after reopening')
        ctx.label(want['cls'])
        if want['array'].size > 1 and not want['is_const'] and (want['elem'] != default or want['count'] > 1 or want['pack'] or want['lk'] not in (None, 'none') or want['null'] is not None):
            ctx.nontrivial()
    pc = rqp.PropertyCollection()
    pc.set_support(support_uuid = su, model = m)
    pc.add_parts_list_to_dict([m.part_for_uuid(u) for u, _ in made])
    for how, seed, which in spec['after']:
        u, want = made[which % len(made)]
        if want['const'] is not None or want['pack'] or not want['array'].size:
            continue
        part = m.part_for_uuid(u)
        rng = np.random.default_rng(seed)
        a = want['array']
        sl = tuple(slice(*sorted((int(rng.integers(0, n)), int(rng.integers(1, n + 1))))) for n in a.shape)
        sl = tuple(slice(s.start, max(s.stop, s.start + 1)) for s in sl)
        if how == 'slice':
            ok(exact(np.asarray(pc.h5_slice(part, sl)), a[sl]), f'slice {sl} of the stored array')
        else:
            b = a.copy()
            new = rng.permutation(a.reshape(-1))[:a[sl].size].reshape(a[sl].shape)
            b[sl] = new
            if which % 2:
                pc.cached_part_array_ref(part)
            pc.h5_overwrite_slice(part, sl, new.copy())
            want['array'] = b
            ok(exact(np.asarray(pc.cached_part_array_ref(part)), b), 'cached array after a slice is overwritten')
            ok(exact(np.asarray(rqp.Property(m, uuid = u).array_ref()), b), 'array after a slice is overwritten')
            for u2, w2 in made:
                if u2 != u:
                    ok(exact(np.asarray(rqp.Property(m, uuid = u2).array_ref(**(dict(dtype = bool) if w2['pack'] else {}))), w2['array']), 'another array after a slice is overwritten')
    for u, want in made:
        s, t = pc.shape_and_type_of_part(m.part_for_uuid(u))
        if not want['pack']:
            eq(tuple(s), want['array'].shape, 'shape of part')


def wdtype(p, want, kw):
    if kw['discrete'] and want['cls'] != 'bool':
        t = [None, None, None, np.int32, 'int64', np.int16][p['dtype']]
    elif want['cls'] == 'bool':
        t = [None, None, bool, 'bool', 'uint8', None if p['const'] else 'pack'][p['dtype']]
    else:
        t = [None, None, None, np.float32, np.float64, 'float32'][p['dtype']]
    return None if want['is_const'] and not p['expand'] else t
