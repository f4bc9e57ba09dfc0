"""Properties of every form on an ijk grid, described by small specifications, and the values expected of them."""
import numpy as np
from hypothesis import strategies as st

import resqpy.property as rqp
import resqpy.time_series as rts

from pbt.lib.gen import *

FORMS = ['cont', 'disc', 'cat', 'count', 'const', 'iconst', 'time', 'facet', 'real', 'bool', 'points', 'columns', 'layers', 'nodes', 'rocktype', 'codes']
SHAPES = {'columns': lambda n: (n[1], n[2]), 'layers': lambda n: (n[0],), 'nodes': lambda n: (n[0] + 1, n[1] + 1, n[2] + 1)}
NOT_CELLS = tuple(SHAPES)


def prop_specs(forms = FORMS, max_size = 4):
    return st.lists(st.fixed_dictionaries(dict(form = st.sampled_from(list(forms)), seed = seeds)), max_size = max_size)


def supports(m):
    """Time series and string lookup used by the properties."""
    ts = rts.TimeSeries(m, first_timestamp = '2020-01-01', title = 'ts')
    for _ in range(3):
        ts.extend_by_days(30)
    ts.create_xml()
    sl = rqp.StringLookup(m, int_to_str_dict = {0: 'sand', 1: 'shale', 2: 'coal', 3: 'silt'}, title = 'facies table')
    sl.create_xml()
    return ts, sl


def make(m, g, n, specs, ts, sl):
    """Adds properties to the model for a grid; returns dictionary of title: (form, array of values, realization)."""
    n = tuple(int(x) for x in n)
    vals = {}
    for q, p in enumerate(specs):
        rng = np.random.default_rng(p['seed'])
        t, f, r = f'p{q}', p['form'], None
        a = np.round(rng.uniform(0.1, 9.0, n), 3)
        di = rng.integers(0, 4, n)
        kw = dict(property_kind = 'continuous', uom = 'm')
        if f == 'cont':
            kw = dict(property_kind = 'porosity', uom = 'm3/m3')
        elif f in ('disc', 'rocktype'):
            a = di
            kw = dict(property_kind = 'index' if f == 'disc' else 'rock type', discrete = True, null_value = -5)
        elif f == 'codes':
            a = rng.integers(100000, 2000000, n)
            kw = dict(property_kind = 'code', discrete = True)
        elif f == 'cat':
            a = di
            kw = dict(property_kind = 'facies', discrete = True, string_lookup_uuid = sl.uuid)
        elif f == 'count':
            a = np.round(rng.uniform(0.0, 9.0, n + (3,)), 3)
            kw.update(count = 3)
        elif f == 'const':
            a = np.full(n, 0.25)
            kw = dict(property_kind = 'porosity', uom = 'm3/m3', const_value = 0.25)
        elif f == 'iconst':
            a = np.full(n, 3)
            kw = dict(property_kind = 'index', discrete = True, const_value = 3)
        elif f == 'time':
            kw = dict(property_kind = 'pressure', uom = 'bar', time_series_uuid = ts.uuid, time_index = int(rng.integers(0, 4)))
        elif f == 'facet':
            kw = dict(property_kind = 'rock permeability', uom = 'mD', facet_type = 'direction', facet = str(rng.choice(['I', 'J', 'K'])))
        elif f == 'real':
            r = int(rng.integers(0, 2))
            kw = dict(property_kind = 'depth', uom = 'm', realization = r)
        elif f == 'bool':
            a = rng.random(n) < 0.5
            kw = dict(property_kind = 'discrete', discrete = True)
        elif f == 'points':
            a = np.round(rng.uniform(0.0, 9.0, n + (3,)), 3)
            kw = dict(property_kind = 'length', uom = 'm', points = True)
        elif f in SHAPES:
            a = np.round(rng.uniform(0.0, 9.0, SHAPES[f](n)), 3)
            kw.update(indexable_element = f)
        rqp.Property.from_array(m, cached_array = None if 'const_value' in kw else a, source_info = 'generated', keyword = t, support_uuid = g.uuid, **kw)
        vals[t] = (f, a, r)
    return vals


META = {'continuous': 'continuous_for_part', 'uom': 'uom_for_part', 'time index': 'time_index_for_part', 'null value': 'null_value_for_part', 'property kind': 'property_kind_for_part', 'facet type': 'facet_type_for_part', 'facet': 'facet_for_part',
        'realization': 'realization_for_part', 'indexable element': 'indexable_for_part', 'count': 'count_for_part', 'constant value': 'constant_value_for_part', 'points': 'points_for_part'}


def inherited(pc, spc, vals, select, what, realization = None, all_realizations = True, cross = False, others = (), absent_ok = NOT_CELLS, meta = META, tol = 1e-6):
    """Checks properties in collection pc against those of the source (vals); select maps (form, array) to expected values."""
    from pbt.core import ok, eq, arr_eq, arr_close
    for t, (form, a, r) in vals.items():
        parts = [] if pc is None else [p for p in pc.parts() if pc.citation_title_for_part(p) == t]
        wanted = r == realization if (realization is not None or not all_realizations) else True
        if not wanted:
            ok(not parts, f'{what}: property for realization {r} when {realization} was wanted')
            continue
        if not parts and form in absent_ok:
            continue
        ok(len(parts) == 1, f'{what}: {len(parts)} properties in place of the {form} property')
        part = parts[0]
        want = select(form, a)
        got = pc.cached_part_array_ref(part)
        sp = spc.singleton(citation_title = t)
        for name, fn in meta.items():
            x, y = getattr(pc, fn)(part), getattr(spc, fn)(sp)
            if name == 'null value' and y is None:
                continue
            ok(str(x) == str(y), f'{what}: {name} of the {form} property is {x!r}, was {y!r}')
        for fn, cls in (('time_series_uuid_for_part', rts.TimeSeries), ('string_lookup_uuid_for_part', rqp.StringLookup)):
            x, y = getattr(pc, fn)(part), getattr(spc, fn)(sp)
            eq(x is None, y is None, f'{what}: presence of {fn[:-14]} for the {form} property')
            if x is not None:
                ok(pc.model.root(uuid = x) is not None, f'{what}: {fn[:-14]} for the {form} property is not in the model')
                if cls is rts.TimeSeries:
                    eq(cls(pc.model, uuid = x).datetimes(), cls(spc.model, uuid = y).datetimes(), f'{what}: time series')
                else:
                    eq(cls(pc.model, uuid = x).str_dict, cls(spc.model, uuid = y).str_dict, f'{what}: string lookup')
        if form == 'bool':
            got = np.array(got, dtype = bool)
        eq(tuple(got.shape), tuple(want.shape), f'{what}: shape of the {form} property')
        if np.asarray(want).dtype.kind == 'f':
            arr_close(got, want, tol, f"{what}: values of the {form} property", tol)
        else:
            arr_eq(got, want, f'{what}: values of the {form} property')
    if pc is not None:
        extra = [pc.citation_title_for_part(p) for p in pc.parts() if pc.citation_title_for_part(p) not in vals and pc.citation_title_for_part(p) != 'ACTIVE' and pc.citation_title_for_part(p) not in others]
        ok(not extra, f'{what}: unexpected properties {extra}')
