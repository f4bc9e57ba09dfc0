"""Generated collections of properties queried with generated combinations of criteria; every selection, list of distinct values, single lookup and attribute style set is compared with filtering the specifications of the properties one by one, and arrays assembled over an index are compared with the arrays given.

The specification of each property (not the accessors of the collection) is the reference. Where nothing is documented (which of several equal creation times is newest, criteria that cannot be satisfied by the support of the collection) either outcome is accepted."""
import numpy as np

import resqpy.model as rq
import resqpy.olio.uuid as bu
import resqpy.property as rqp
import resqpy.time_series as rts

from pbt.core import *
from pbt.lib.gen import *
from pbt.lib import props as P

KINDS = {'cont': ['porosity', 'saturation', 'pressure', 'rock permeability', 'own real kind'], 'disc': ['index', 'code', 'own integer kind'], 'cat': ['index', 'own integer kind'], 'points': ['length', 'depth']}
UOMS = ['m3/m3', 'm', '%', 'my own unit']
FACETS = [None, None, ('what', 'oil'), ('what', 'gas'), ('direction', 'I'), ('direction', 'J'), ('conditions', 'oil'), ('qualifier', 'none such')]
TITLES = ['por', 'porosity', 'por x', 'x por', 'PORO', 'sw', 'x', 'own kind', 'an x in it', 'own_kind']
EXTRA = [{}, {}, {'a': '1'}, {'a': '2'}, {'a': '1', 'b': 'x'}, {'b': 'x'}]
SUP = ['grid', 'grid', 'grid', 'irregular', 'points', 'surface', 'mesh', 'polyline', 'frame', 'tetra', 'blocked_well', 'gcs']

ONE = st.fixed_dictionaries(dict(cls = st.sampled_from(['cont', 'cont', 'cont', 'disc', 'cat', 'points']), kind = st.integers(0, 4), title = st.integers(0, len(TITLES) - 1), facet = st.integers(0, len(FACETS) - 1), real = st.sampled_from([None, None, 0, 1, 2, 11]), time = st.sampled_from([None, None, [0, 0], [0, 1], [0, 2], [1, 0], [1, 1]]),
                                 uom = st.integers(0, 3), count = st.sampled_from([1, 1, 1, 2]), const = st.sampled_from([None, None, None, 0, 1, 3]), elem = st.sampled_from([0, 0, 0, 1, 2]), sl = st.integers(0, 1), extra = st.integers(0, 5), sup = st.sampled_from([0, 0, 0, 1]), related = st.sampled_from([None, None, 0, 1]), seed = seeds))
CRIT = ['realization', 'support_uuid', 'uuid', 'continuous', 'points', 'count', 'indexable', 'property_kind', 'facet_type', 'facet', 'title', 'citation_title', 'time_series_uuid', 'time_index', 'uom', 'string_lookup_uuid', 'categorical', 'const_value', 'related_uuid', 'extra']
HOW = st.sampled_from(['like', 'like', 'like', 'like', 'like', 'other', 'absent', '*', 'none'])
MODES = [None, 'is', 'starts', 'ends', 'contains', 'is not', 'does not start', 'does not end', 'does not contain']
QUERY = st.fixed_dictionaries(dict(of = st.integers(0, 20), by = st.lists(st.tuples(st.integers(0, len(CRIT) - 1), HOW).map(list), min_size = 1, max_size = 4), mode = st.integers(0, len(MODES) - 1), cut = st.integers(0, 9), text = st.booleans(), handling = st.sampled_from(['exception', 'none', 'first', 'oldest', 'newest']), seed = seeds))


@st.composite
def specs(draw):
    ones = draw(st.lists(ONE, min_size = 1, max_size = 9))
    if draw(st.booleans()):  # families: alter one feature of a property
        base = draw(st.sampled_from(ones))
        for key in draw(st.lists(st.sampled_from(['facet', 'real', 'time', 'title', 'const', 'uom', 'kind', 'elem', 'sl', 'extra']), min_size = 1, max_size = 3)):
            ones.append(dict(base, **{key: draw(ONE)[key]}))
    return dict(supports = draw(st.tuples(st.sampled_from(SUP), st.sampled_from(SUP)).map(list)), dims = draw(P.DIMS), multi = draw(st.sampled_from([False, False, True])), ones = ones, queries = draw(st.lists(QUERY, min_size = 1, max_size = 8)), how = draw(st.sampled_from(['support', 'parts', 'set'])), reopen = draw(st.booleans()),
                drop = draw(st.lists(st.integers(0, 9), max_size = 2)), aps = draw(st.lists(st.tuples(st.sampled_from(['pk', 'title']), st.integers(0, 3), st.sampled_from(['ignore', 'warn', 'exception'])).map(list), min_size = 1, max_size = 2)))


class World:

    def __init__(self, m):
        self.ts, self.sl = [], []
        for i in range(2):
            t = rts.TimeSeries(m, first_timestamp = f'200{i}-01-01Z', title = f'ts {i}')
            t.extend_by_days(10)
            t.extend_by_days(20)
            t.create_xml()
            self.ts.append(t.uuid)
            s = rqp.StringLookup(m, int_to_str_dict = {k: f's{k}{i}' for k in range(4)}, title = f'lookup {i}')
            s.create_xml()
            self.sl.append(s.uuid)


def make(m, w, p, sup):
    """Creates a property; returns its metadata and array as specified."""
    su, elements, default = sup[:3]
    cls = p['cls']
    names = [default] + [n for n in elements if n != default and not (n.startswith('faces ') and len(n) == 7) and n not in ('faces',)]
    elem = names[p['elem'] % len(names)]
    facet = FACETS[p['facet']] if cls != 'points' else None
    if facet is not None and facet[0] == 'direction' and elem == 'faces':
        facet = None
    count, const = p['count'], p['const'] if cls != 'points' else None
    shape = tuple(elements[elem]) + ((count,) if count > 1 else ()) + ((3,) if cls == 'points' else ())
    rng = np.random.default_rng(p['seed'])
    a = rng.random(shape) if cls in ('cont', 'points') else rng.integers(0, 4, size = shape)
    if const is not None:
        const = const + 0.5 if cls == 'cont' else const
        a = np.full(shape, const)
    kind = KINDS[cls][p['kind'] % len(KINDS[cls])]
    d = dict(cls = cls, realization = p['real'], support_uuid = su, continuous = cls in ('cont', 'points'), points = cls == 'points', count = count, indexable = elem, property_kind = kind, facet_type = facet[0] if facet else None, facet = facet[1] if facet else None, title = TITLES[p['title']],
             time_series_uuid = w.ts[p['time'][0]] if p['time'] else None, time_index = p['time'][1] if p['time'] else None, uom = UOMS[p['uom']] if cls == 'cont' else None, string_lookup_uuid = w.sl[p['sl']] if cls == 'cat' else None, categorical = cls == 'cat', const_value = const, extra = EXTRA[p['extra']], array = a)
    x = rqp.Property.from_array(m, None if const is not None else a, None, d['title'], su, property_kind = kind, indexable_element = elem, facet_type = d['facet_type'], facet = d['facet'], discrete = not d['continuous'], uom = d['uom'], time_series_uuid = d['time_series_uuid'], time_index = d['time_index'], realization = d['realization'],
                                count = count, points = d['points'], const_value = const, string_lookup_uuid = d['string_lookup_uuid'], extra_metadata = d['extra'])
    d['uuid'] = x.uuid
    d['part'] = x.part
    return d


UUIDS = ('support_uuid', 'uuid', 'time_series_uuid', 'string_lookup_uuid')


def matches(d, name, v, mode):
    """Whether the property meets one criterion, as documented."""
    if v is None:
        return True
    if name == 'related_uuid':
        return str(v) in d['related']
    if name == 'extra':
        return all(d['extra'].get(k) == x for k, x in v.items())
    if name in ('title', 'citation_title'):
        t = d['title']
        k = {None: t == v, 'is': t == v, 'starts': t.startswith(v), 'ends': t.endswith(v), 'contains': v in t}
        return k[mode] if mode in k else not k[{'is not': 'is', 'does not start': 'starts', 'does not end': 'ends', 'does not contain': 'contains'}[mode]]
    x = d[name]
    if isinstance(v, str) and v == '*':
        return x is not None
    if isinstance(v, str) and v == 'none':
        return x is None
    if name in UUIDS:
        return str(x) == str(v)
    if x is None:
        return False
    return x == v


ABSENT = dict(realization = 77, count = 9, indexable = 'triangulated edges', property_kind = 'velocity', facet_type = 'netgross', facet = 'zz', title = 'zz', citation_title = 'zz', time_index = 99, uom = 'kPa', const_value = 1234, extra = {'zz': 'zz'})


def criteria(q, ds, others):
    """A dictionary of criteria made with the values of one property, another, none of them, or the special values."""
    rng = np.random.default_rng(q['seed'])
    d = ds[q['of'] % len(ds)]
    kw, mode = {}, None
    for i, how in q['by']:
        name = CRIT[i]
        if name in ('title', 'citation_title') and ('title' in kw or 'citation_title' in kw):
            continue
        src = d if how == 'like' else ds[int(rng.integers(0, len(ds)))]
        if name in ('title', 'citation_title'):
            mode = MODES[q['mode']]
            t = src['title'] if how != 'absent' else 'zz'
            k = q['cut'] % (len(t) + 1) if mode not in (None, 'is', 'is not') else 0
            t = t[:len(t) - k] if mode and 'start' in mode else t[k:]
            if t:
                kw[name] = t
        elif name == 'related_uuid':
            v = sorted(src['related'])
            v = v[int(rng.integers(0, len(v)))] if v and how != 'absent' else others
            kw[name] = v if q['text'] else bu.uuid_from_string(v)
        elif name == 'extra':
            kw[name] = ABSENT[name] if how == 'absent' else dict(src['extra'])
        elif how in ('*', 'none'):
            if name in ('continuous', 'points', 'categorical', 'support_uuid', 'uuid', 'count'):
                continue  # never without a value
            kw[name] = how
        elif name in UUIDS:
            v = src[name]
            if how == 'absent':
                v = bu.new_uuid()
                if name == 'support_uuid':
                    continue
            kw[name] = str(v) if v is not None and q['text'] else v
        elif how == 'absent' and name in ABSENT:
            kw[name] = ABSENT[name]
        else:
            kw[name] = src[name]
    return {k: v for k, v in kw.items() if v is not None}, mode


def judge_lists(pc, ds, what):
    eq(sorted(pc.parts()), sorted(d['part'] for d in ds), f'{what}: parts')
    by = {d['part']: d for d in ds}
    order = [by[p] for p in pc.parts()]
    eq([str(u) for u in pc.uuids()], [str(d['uuid']) for d in order], f'{what}: uuids')
    eq(pc.number_of_parts(), len(ds), f'{what}: number of parts')
    eq(pc.titles(), [d['title'] for d in order], f'{what}: titles')
    uniq = lambda k: sorted({d[k] for d in ds if d[k] is not None})
    uniqs = lambda k: sorted({str(d[k]) for d in ds if d[k] is not None})
    for f, k in (('realization_list', 'realization'), ('property_kind_list', 'property_kind'), ('facet_type_list', 'facet_type'), ('facet_list', 'facet'), ('time_index_list', 'time_index'), ('uom_list', 'uom'), ('unique_indexable_element_list', 'indexable')):
        eq(getattr(pc, f)(sort_list = True), uniq(k), f'{what}: {f}')
        eq(sorted(getattr(pc, f)(sort_list = False)), uniq(k), f'{what}: {f} unsorted')
    for f, k in (('time_series_uuid_list', 'time_series_uuid'), ('string_lookup_uuid_list', 'string_lookup_uuid')):
        eq(sorted(map(str, getattr(pc, f)(sort_list = False))), uniqs(k), f'{what}: {f}')
        eq(sorted(map(str, getattr(pc, f)())), uniqs(k), f'{what}: {f} sorted')
    if ds:
        eq(bool(pc.all_continuous()), all(d['continuous'] for d in ds), f'{what}: all continuous')
        eq(bool(pc.all_discrete()), not any(d['continuous'] for d in ds), f'{what}: all discrete')
        eq(bool(pc.all_count_one()), all(d['count'] == 1 for d in ds), f'{what}: all count one')
        one = lambda k: len({d[k] for d in ds}) == 1
        eq(bool(pc.establish_has_single_property_kind()), one('property_kind'), f'{what}: single property kind')
        eq(bool(pc.establish_has_single_indexable_element()), one('indexable'), f'{what}: single indexable element')
        eq(bool(pc.establish_has_single_uom()), one('uom'), f'{what}: single uom')
        single = one('time_index') and len({str(d['time_series_uuid']) for d in ds}) == 1 and ds[0]['time_index'] is not None
        eq(pc.establish_time_set_kind(), 'single time' if single else 'not a time set', f'{what}: time set kind')
    for p, d in zip(pc.parts(), order):
        ok(pc.part_in_collection(p), f'{what}: part not in collection')
        got = dict(realization = pc.realization_for_part(p), support_uuid = str(pc.support_uuid_for_part(p)), uuid = str(pc.uuid_for_part(p)), continuous = pc.continuous_for_part(p), points = pc.points_for_part(p), count = pc.count_for_part(p), indexable = pc.indexable_for_part(p), property_kind = pc.property_kind_for_part(p),
                   facet_type = pc.facet_type_for_part(p), facet = pc.facet_for_part(p), title = pc.title_for_part(p), time_series_uuid = str(pc.time_series_uuid_for_part(p)), time_index = pc.time_index_for_part(p), uom = pc.uom_for_part(p), string_lookup_uuid = str(pc.string_lookup_uuid_for_part(p)), categorical = pc.part_is_categorical(p),
                   const_value = pc.constant_value_for_part(p))
        for k, v in got.items():
            eq(v, str(d[k]) if k in UUIDS else d[k], f'{what}: {k} of a part')


def same(a, b):
    return a.shape == b.shape and np.array_equal(a, b)


def judge_queries(m, pc, ds, queries, ctx, other_uuid, what):
    for q in queries:
        kw, mode = criteria(q, ds, other_uuid)
        want = [d for d in ds if all(matches(d, k, v, mode) for k, v in kw.items())]
        if 0 < len(want) < len(ds) and len(kw) > 1:
            ctx.nontrivial()
        for k in kw:
            ctx.label(k)
        if 'support_uuid' in kw and pc.support_uuid is not None and str(kw['support_uuid']) != str(pc.support_uuid):
            continue
        tm = dict(title_mode = mode) if mode else {}
        show = f'{what}: {kw}, {mode}'
        k1 = {k: v for k, v in kw.items() if k not in ('uuid', 'extra')}
        w1 = [d for d in ds if all(matches(d, k, v, mode) for k, v in k1.items())]
        eq(sorted(pc.selective_parts_list(**k1, **tm)), sorted(d['part'] for d in w1), f'{show}: selective_parts_list')
        sub = rqp.selective_version_of_collection(pc, **kw, **tm)
        judge_lists(sub, want, f'{show}: selective version')
        k2 = {('citation_title' if k == 'title' else k): v for k, v in kw.items()}
        new = rqp.PropertyCollection()
        tm2 = dict(citation_title_match_mode = mode) if mode else {}
        new.inherit_parts_selectively_from_other_collection(pc, **k2, **tm2)
        judge_lists(new, want, f'{show}: inherited selectively')
        new.inherit_parts_selectively_from_other_collection(pc, ignore_clashes = True, **k2, **tm2)
        eq(new.number_of_parts(), len(want), f'{show}: inherited again')
        new.inherit_parts_from_other_collection(pc, ignore_clashes = True)
        eq(sorted(new.parts()), sorted(pc.parts()), f'{show}: the rest inherited')
        # single
        k3 = {k: v for k, v in kw.items() if k != 'extra'}
        w3 = [d for d in ds if all(matches(d, k, v, mode) for k, v in k3.items())]
        h = q['handling']
        k4 = {k: v for k, v in k3.items() if k != 'const_value'}
        w4 = [d for d in ds if all(matches(d, k, v, mode) for k, v in k4.items())]
        if len(w3) > 1 and h == 'exception':
            ok(raises(lambda: pc.singleton(multiple_handling = h, **k3, **tm), AssertionError), f'{show}: singleton of several did not raise')
        else:
            got = pc.singleton(multiple_handling = h, **k3, **tm)
            if not w3 or (len(w3) > 1 and h == 'none'):
                eq(got, None, f'{show}: singleton, {h}')
            elif len(w3) == 1:
                eq(got, w3[0]['part'], f'{show}: singleton')
            else:
                ok(got in [d['part'] for d in w3], f'{show}: singleton {got} does not match the criteria')
        if len(w4) == 1 and (pc.support is not None or w4[0]['const_value'] is None):  # a constant array needs a support for its shape
            a = pc.single_array_ref(multiple_handling = h, **k4, **tm)
            ok(a is not None and same(np.asarray(a), w4[0]['array']), f'{show}: single array')
        elif not w4:
            eq(pc.single_array_ref(multiple_handling = h, **k4, **tm), None, f'{show}: single array where none match')


def aps_key(d, mode, indexable):
    if mode == 'pk':
        k = d['property_kind']
        if indexable is not None and d['indexable'] != indexable:
            k += '_' + d['indexable']
        if d['facet'] is not None:
            k += '_' + d['facet']
    else:
        k = d['title']
    k = k.replace(' ', '_')
    if d['time_index'] is not None:
        k += f'_t{d["time_index"]}'
    if d['realization'] is not None:
        k += f'_r{d["realization"]}'
    return k


def judge_aps(m, support, ds, mode, indexable, handling, what, **kw):
    keys = [aps_key(d, mode, indexable) for d in ds]
    make = lambda: rqp.AttributePropertySet(model = m, support = support, key_mode = mode, indexable = indexable, multiple_handling = handling, **kw)
    if handling == 'exception' and len(set(keys)) < len(keys):
        ok(raises(make, KeyError), f'{what}: duplicate keys did not raise')
        return
    s = make()
    eq(len(s), len(ds), f'{what}: length')
    eq(sorted(s.keys()), sorted(keys), f'{what}: keys')
    by = {str(d['uuid']): d for d in ds}
    first = {}
    for p in s.parts():
        d = [x for x in ds if x['part'] == p][0]
        first.setdefault(aps_key(d, mode, indexable), d)
    eq([k for k, _ in s.items()], list(s.keys()), f'{what}: keys of items')
    eq([x.uuid for x in s.properties()], [getattr(s, k).uuid for k in s.keys()], f'{what}: properties')
    for k, d in first.items():
        x = getattr(s, k)
        eq(str(x.uuid), str(d['uuid']), f'{what}: property of key {k}')
        eq(x.part, d['part'], f'{what}: part')
        eq(x.key, k, f'{what}: key')
        got = dict(realization = x.realization, support_uuid = str(x.support_uuid), continuous = x.is_continuous, points = x.is_points, count = x.count, indexable = x.indexable, property_kind = x.property_kind, facet_type = x.facet_type, facet = x.facet, title = x.title, time_series_uuid = str(x.time_series_uuid), time_index = x.time_index,
                   uom = x.uom, string_lookup_uuid = str(x.string_lookup_uuid), categorical = x.is_categorical, const_value = x.constant_value)
        for n, v in got.items():
            eq(v, str(d[n]) if n in UUIDS else d[n], f'{what}: {n} of {k}')
        eq(x.citation_title, d['title'], f'{what}: citation title')
        eq(x.indexable_element, d['indexable'], f'{what}: indexable element')
        eq(x.is_discrete, d['cls'] == 'disc', f'{what}: discrete')
        em = {a: b for a, b in (x.extra or {}).items() if a != 'Uom'}
        eq(em, d['extra'], f'{what}: extra metadata')
        ok(same(np.asarray(x.array_ref), d['array']), f'{what}: array of {k}')
        v = x.values
        ok(same(np.asarray(v), d['array']) and v is not x.array_ref and not np.shares_memory(v, x.array_ref), f'{what}: values of {k}')


@check('select', specs(), quick = 400, thorough = 12000, shards = 4, rule = 'a query with two or more criteria met by some but not all of the properties')
def select(spec, ctx):
    m = ctx.new_model()
    w = World(m)
    sups = [P.make_support(m, spec['supports'][i], spec['dims'], i, title = f'support {i}') for i in range(2 if spec['multi'] else 1)]
    ds = []
    for p in spec['ones']:
        d = make(m, w, p, sups[p['sup'] % len(sups)])
        d['related'] = {str(d['support_uuid'])} | {str(d[k]) for k in ('time_series_uuid', 'string_lookup_uuid') if d[k] is not None}
        if p['related'] is not None:  # a soft relationship
            u = w.sl[p['related']]
            if str(u) not in d['related']:
                m.create_reciprocal_relationship(m.root_for_uuid(d['uuid']), 'sourceObject', m.root_for_uuid(u), 'destinationObject')
                d['related'].add(str(u))
        ds.append(d)
    other = str(bu.new_uuid())
    multi = len({str(d['support_uuid']) for d in ds}) > 1
    su = ds[0]['support_uuid']

    def collection(m):
        if multi or spec['how'] == 'parts':
            pc = rqp.PropertyCollection()
            pc.set_support(model = m)
            pc.add_parts_list_to_dict([d['part'] for d in ds])
            if multi:
                eq(pc.support_uuid, None, 'support of a collection of several supports')
        else:
            base = rqp.PropertyCollection()
            base.set_support(support_uuid = su, model = m)
            pc = rqp.PropertyCollection(support = base.support)
            if spec['how'] == 'set':
                root = pc.create_property_set_xml('set')
                u = bu.uuid_from_string(root.attrib['uuid'])
                pc = rqp.PropertyCollection(support = base.support, property_set_root = m.root_for_uuid(u))
        return pc

    for when in range(2 if spec['reopen'] else 1):
        if when:
            m.store_epc(quiet = True)
            m = ctx.reopen(m)
        what = 'after reopening' if when else 'as created'
        pc = collection(m)
        judge_lists(pc, ds, what)
        judge_queries(m, pc, ds, spec['queries'], ctx, other, what)
        judge_lists(pc, ds, f'{what}, after the queries')
        eq(bool(pc.establish_has_multiple_realizations()), len({d['realization'] for d in ds} - {None}) > 1, f'{what}: multiple realizations')
        if not multi:
            for mode, i, handling in spec['aps']:
                judge_aps(m, pc.support, ds, mode, [None, 'cells', 'nodes', ds[0]['indexable']][i], handling, f'{what}: attribute set {mode} {i}')
        pc = collection(m)
        keep = list(ds)
        for i in spec['drop']:
            d = ds[i % len(ds)]
            pc.remove_part_from_dict(d['part'])
            keep = [x for x in keep if x is not d]
        if len(keep) < len(ds):
            judge_lists(pc, keep, f'{what}, after removal')
            if keep:
                judge_queries(m, pc, keep, spec['queries'][:2], ctx, other, f'{what}, after removal')


# ----------------------------------------------------------------------------------------------------------------------


@st.composite
def families(draw):
    over = draw(st.sampled_from(['real', 'time', 'facet']))
    vals = draw(st.lists(st.integers(0, 6), min_size = 1, max_size = 6, unique = True))
    noise = draw(st.lists(st.tuples(st.sampled_from(['title', 'kind', 'real', 'time', 'facet', 'elem', 'cls']), ONE).map(list), max_size = 3))
    return dict(support = draw(st.sampled_from(SUP)), dims = draw(P.DIMS), base = draw(ONE), over = over, vals = vals, noise = noise, order = draw(seeds), b32 = draw(st.booleans()), fill = draw(st.booleans()), value = draw(st.sampled_from([None, None, 0, -99])), give = draw(st.booleans()), consts = draw(seeds), reopen = draw(st.booleans()))


F = ['oil', 'gas', 'water', 'b', 'a', 'Z', 'free water']


@check('arrays', families(), quick = 300, thorough = 12000, shards = 3, rule = 'a family of three or more members whose index values are not simply 0, 1, 2...')
def arrays(spec, ctx):
    m = ctx.new_model()
    w = World(m)
    t = rts.TimeSeries(m, first_timestamp = '2010-01-01Z', title = 'long')
    for i in range(8):
        t.extend_by_days(5)
    t.create_xml()
    sup = P.make_support(m, spec['support'], spec['dims'], 0, title = 'support')
    base, over = dict(spec['base']), spec['over']
    if over == 'facet' and base['cls'] == 'points':
        base['cls'] = 'cont'
    w.ts = [t.uuid, w.ts[0]]
    if base['time'] is not None:
        base['time'] = [0, base['time'][1]]
    rng = np.random.default_rng(spec['consts'])
    family, all_, FACETS_ = [], [], FACETS
    plans = []
    for i, v in enumerate(spec['vals']):
        p = dict(base, seed = base['seed'] + i, const = base['const'] if rng.random() < 0.5 else None, sup = 0)
        if over == 'real':
            p['real'] = v
        elif over == 'time':
            p['time'] = [0, v]
        else:
            p['fv'] = F[v]
        plans.append(p)
    for feature, o in spec['noise']:
        if feature == over:
            continue
        p = dict(plans[0], seed = base['seed'] + 100, noise = True)
        if feature == 'time':
            o = dict(o, time = None if o['time'] is None else [o['time'][0], o['time'][1]])
        p[feature] = o[feature]
        plans.append(p)
    made = []
    for i in np.random.default_rng(spec['order']).permutation(len(plans)):
        p = plans[i]
        if over == 'facet' and 'fv' in p:
            FACETS.append(('what', p['fv']))
            try:
                d = make(m, w, dict(p, facet = len(FACETS) - 1), sup)
            finally:
                FACETS.pop()
        else:
            d = make(m, w, p, sup)
        made.append((i, d))
    if spec['reopen']:
        m.store_epc(quiet = True)
        m = ctx.reopen(m)
    n = len(spec['vals'])
    every = [d for _, d in made]
    key = {'real': 'realization', 'time': 'time_index', 'facet': 'facet'}[over]
    ex = [d for i, d in made if i == 0][0]
    base_pc = rqp.PropertyCollection()
    base_pc.set_support(support_uuid = sup[0], model = m)
    pc = rqp.PropertyCollection(support = base_pc.support)
    eq(sorted(pc.parts()), sorted(d['part'] for d in every), 'parts of the whole collection')
    sub = rqp.PropertyCollection()
    fixed = ['realization', 'support_uuid', 'continuous', 'points', 'indexable', 'property_kind', 'facet_type', 'facet', 'title', 'time_series_uuid', 'time_index']
    fixed = [k for k in fixed if k != key and not (over == 'facet' and k == 'facet_type')]
    want = [d for d in every if all(str(d[k]) == str(ex[k]) for k in fixed)]
    f = {'real': sub.inherit_similar_parts_for_realizations_from_other_collection, 'time': sub.inherit_similar_parts_for_time_series_from_other_collection, 'facet': sub.inherit_similar_parts_for_facets_from_other_collection}[over]
    f(pc, ex['part'])
    judge_lists(sub, want, f'similar parts over {over}')
    # the family itself
    members = [d for i, d in made if i < n]
    fam = rqp.PropertyCollection()
    fam.set_support(support_uuid = sup[0], model = m)
    fam.add_parts_list_to_dict([d['part'] for d in members])
    order = sorted(d[key] for d in members)
    if n > 2 and order != list(range(n)):
        ctx.nontrivial()
    ctx.label(over)
    cont = ex['continuous']
    full = {'real': fam.realizations_array_ref, 'time': fam.time_series_array_ref, 'facet': fam.facets_array_ref}[over]
    kw = dict(use_32_bit = spec['b32'])
    if spec['give']:
        kw['indexable_element'] = ex['indexable']
    fill = spec['fill'] and over != 'facet'
    value = spec['value']
    if over != 'facet':
        kw['fill_missing'] = fill
        if value is not None:
            kw['fill_value'] = value
    else:
        eq(fam.facet_list(), order, 'facets')
    a = full(**kw)
    eq(a.dtype, np.dtype((np.float32 if spec['b32'] else np.float64) if cont else (np.int32 if spec['b32'] else np.int64)), 'type of assembled array')
    extent = order[-1] + 1 if fill else n
    shape = ex['array'].shape
    eq(a.shape, (extent,) + shape, 'shape of assembled array')
    missing = value if value is not None else np.nan if cont else -1
    for i in range(extent):
        d = [x for x in members if x[key] == (i if fill else order[i])]
        expect = d[0]['array'].astype(a.dtype) if d else np.full(shape, missing, dtype = a.dtype)
        ok(np.array_equal(a[i], expect, equal_nan = cont), f'slice {i} of array over {over} is not the array of the property with that index ({order})')
    for d in members:
        ok(same(np.asarray(fam.cached_part_array_ref(d['part'])), d['array']), 'array of a member afterwards')
    if over == 'real':
        fam.assign_realization_numbers()
        eq([fam.realization_for_part(p) for p in fam.parts()], list(range(n)), 'assigned realization numbers')
        b = fam.realizations_array_ref()
        for i, p in enumerate(fam.parts()):
            ok(np.array_equal(b[i], [d for d in members if d['part'] == p][0]['array']), 'array over assigned realizations')
