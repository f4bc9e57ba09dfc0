"""Generated property arrays (with NaN, inactive cells, both signs, integers and booleans) normalised with every option and compared with the documented mapping worked out directly; generated sets of permeability, porosity and net to gross properties from which the basic static properties are chosen and vertical permeability is made; keyword tables, unit guesses, column edge orderings and time series views.

The stored array is read again after each operation and has to be unchanged."""
import numpy as np

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.grid as grr
import resqpy.olio.uuid as bu
import resqpy.olio.xml_et as rqet
import resqpy.property as rqp
import resqpy.property.property_common as rqp_c
import resqpy.time_series as rts
import resqpy.weights_and_measures as wam
import resqpy.derived_model as rqdm

from pbt.core import *
from pbt.lib.gen import *
from pbt.lib import props as P

VAL = st.one_of(fl(-100, 100, 2), fl(0, 1, 3), st.sampled_from([0.0, 0.0, 1.0, -1.0, 0.00005, 1000.0]))


@st.composite
def arrays(draw):
    dims = draw(st.lists(st.integers(1, 3), min_size = 3, max_size = 3))
    n = int(np.prod(dims))
    cls = draw(st.sampled_from(['cont', 'cont', 'cont', 'disc', 'bool']))
    if cls == 'cont':
        pool = draw(st.lists(VAL, min_size = 1, max_size = 6))
        if draw(st.booleans()):
            pool = [abs(v) for v in pool]
        if draw(st.integers(0, 2)) == 0:
            pool.append(None)
        if draw(st.integers(0, 30)) == 0:
            pool = [None]
    elif cls == 'disc':
        pool = draw(st.lists(st.integers(-6, 30), min_size = 1, max_size = 6))
    else:
        pool = [0, 1]
    vals = draw(st.lists(st.sampled_from(pool), min_size = n, max_size = n))
    return dict(dims = dims, cls = cls, vals = vals, inactive = draw(st.one_of(st.none(), st.lists(st.booleans(), min_size = n, max_size = n))))


OPT = st.fixed_dictionaries(dict(masked = st.booleans(), log = st.booleans(), cycle = st.sampled_from([None, None, 1, 2, 3, 7]), trust = st.booleans(), zero = st.sampled_from([None, None, 0.0, 1.0, 0.5, 0.25, 0.9])))


@check('normalise', st.fixed_dictionaries(dict(a = arrays(), opts = st.lists(OPT, min_size = 1, max_size = 4), reopen = st.booleans())), quick = 500, thorough = 30000, shards = 6, rule = 'the values used for the range are not all the same')
def normalise(spec, ctx):
    s = spec['a']
    m = ctx.new_model()
    crs = rqc.Crs(m)
    crs.create_xml()
    g = grr.RegularGrid(m, extent_kji = tuple(s['dims']), dxyz = (10.0, 20.0, 5.0), crs_uuid = crs.uuid)
    g.create_xml(add_cell_length_properties = False)
    a = np.array([np.nan if v is None else v for v in s['vals']], dtype = dict(cont = float, disc = int, bool = bool)[s['cls']]).reshape(s['dims'])
    inactive = np.zeros(a.shape, dtype = bool) if s['inactive'] is None else np.array(s['inactive']).reshape(a.shape)
    rqp.write_hdf5_and_create_xml_for_active_property(m, np.logical_not(inactive), g.uuid)
    p = rqp.Property.from_array(m, a, 'test', 'prop', g.uuid, property_kind = 'length' if s['cls'] == 'cont' else 'index', indexable_element = 'cells', discrete = s['cls'] != 'cont', uom = 'm' if s['cls'] == 'cont' else None)
    if spec['reopen']:
        m.store_epc()
        m = ctx.reopen(m)
    g = grr.any_grid(m, uuid = g.uuid)
    g.extract_inactive_mask()
    pc = g.extract_property_collection()
    part = m.part_for_uuid(p.uuid)
    stored = [pc.minimum_value_for_part(part), pc.maximum_value_for_part(part)]
    for o in spec['opts']:
        log, zero = o['log'], o['zero']
        if log and zero is not None:
            zero = None
        what = f'normalised {s["cls"]} array with {o}'
        got, lo, hi = pc.normalized_part_array(part, masked = o['masked'], use_logarithm = log, discrete_cycle = o['cycle'], trust_min_max = o['trust'], fix_zero_at = zero)
        # reference
        used = np.isfinite(a.astype(float))
        if o['masked']:
            used = used & ~inactive
        v = a.astype(float)
        again = pc.cached_part_array_ref(part)
        arr_eq(np.asarray(again), a, what + ': array of the property altered')
        if o['trust'] or (s['cls'] == 'bool' and o['cycle'] is not None):
            continue  # range depends on the metadata: judged below
        if not used.any():
            ok(got is None or np.all(np.ma.getmaskarray(got) | ~np.isfinite(np.ma.getdata(got).astype(float))), what + ': an array although no value is usable', got)
            continue
        if s['cls'] == 'disc' and o['cycle'] is not None:
            v = (a % o['cycle']).astype(float)
            wlo, whi = 0.0, o['cycle'] - 1.0
        else:
            wlo, whi = v[used].min(), v[used].max()
        if log:
            if wlo <= 0.0:
                v = np.where(v < 0.0001, 0.0001, v)
            with np.errstate(all = 'ignore'):
                v = np.log10(v)
            wlo, whi = v[used].min(), v[used].max()
        if zero is not None:
            if zero <= 0.0:
                wlo, v = 0.0, np.where(v < 0.0, 0.0, v)
            elif zero >= 1.0:
                whi, v = 0.0, np.where(v > 0.0, 0.0, v)
            else:
                # smallest range holding the values with zero at the fraction asked for
                top = max(whi / (1.0 - zero), -wlo / zero)
                nlo, nhi = -top * zero, top * (1.0 - zero)
                if not nhi > nlo:
                    ctx.label('no range about zero')
                    continue
                wlo, whi = nlo, nhi
        if whi < wlo:
            ctx.label('range on the wrong side of zero')
            if zero == 0.0 or zero == 1.0:
                continue
        ok(got is not None, what + ': no array')
        close(float(lo), wlo, 1e-9, what + ': minimum')
        close(float(hi), whi, 1e-9, what + ': maximum')
        want = np.full(v.shape, 0.5) if whi == wlo else (v - wlo) / (whi - wlo)
        want = np.where(np.isnan(a.astype(float)), np.nan, want)
        data = np.ma.getdata(got).astype(float)
        keep = ~inactive if o['masked'] else np.ones(a.shape, dtype = bool)
        eq(data.shape, a.shape, what + ': shape')
        if o['masked']:
            ok(np.ma.isMaskedArray(got), what + ': not a masked array')
            hid = np.ma.getmaskarray(got)
            ok(bool(np.all(hid[inactive])), what + ': inactive cells not masked')
            ok(not np.any(hid & used), what + ': usable values masked')
        arr_close(data[keep & used], want[keep & used], 1e-9, what)
        ok(bool(np.all(np.isnan(data[keep & ~np.isfinite(a.astype(float))]))), what + ': value for NaN')
        if o['masked'] or s['inactive'] is None or True:
            w = data[keep & used]
            ok(bool(np.all(w >= -1e-9)) and bool(np.all(w <= 1.0 + 1e-9)), what + ': values outside 0 to 1', w)
        if whi > wlo:
            ctx.nontrivial()
        ctx.label(s['cls'])
    # the range of the metadata is used when trusted, for a collection not yet used
    pc = grr.any_grid(m, uuid = g.uuid).extract_property_collection()
    if s['cls'] != 'bool' and stored[0] is not None and stored[1] is not None and float(stored[1]) > float(stored[0]):
        lo2, hi2 = float(stored[0]) - 1.0, float(stored[1]) + 3.0
        pc.override_min_max(part, lo2, hi2)
        got, lo, hi = pc.normalized_part_array(part, trust_min_max = True)
        arr_close(np.array([float(lo), float(hi)]), np.array([lo2, hi2]), 1e-9, 'range from the metadata')
        w = (a.astype(float) - lo2) / (hi2 - lo2)
        arr_close(np.where(np.isnan(a.astype(float)), 0.0, got), np.where(np.isnan(a.astype(float)), 0.0, w), 1e-9, 'normalised with the range of the metadata')


# ---- basic static properties --------------------------------------------------------------------------------------

DIRS = {'I': ['I', 'IJ', 'IJK'], 'J': ['J', 'IJ', 'IJK'], 'K': ['K', 'IJK']}
TITLES = {'I': ['KI', 'PERMI', 'KX', 'PERMX'], 'J': ['KJ', 'PERMJ', 'KY', 'PERMY'], 'K': ['KK', 'PERMK', 'KZ', 'PERMZ']}
PERM = st.fixed_dictionaries(dict(facet = st.sampled_from([None, None, 'I', 'J', 'K', 'IJ', 'IJK']), title = st.sampled_from(['KI', 'PERMJ', 'KK', 'KX', 'KY', 'KZ', 'perm', 'other']), real = st.sampled_from([None, None, None, 0, 1]), seed = seeds))


@check('static', st.fixed_dictionaries(dict(perms = st.lists(PERM, max_size = 4), por = st.lists(st.sampled_from([None, None, 0, 1]), max_size = 2), ntg = st.lists(st.sampled_from([None, None, 0, 1]), max_size = 2), real = st.sampled_from([None, None, None, 0, 1]), share = st.booleans(),
                                            mode = st.sampled_from([None, 'none', 'shared', 'ratio', 'ntg', 'ntg squared']), ratio = st.sampled_from([1.0, 0.1, 0.5]), dims = P.DIMS, seed = seeds)),
       quick = 400, thorough = 20000, shards = 6, rule = 'two or more permeability properties, or a vertical permeability is made')
def static(spec, ctx):
    m = ctx.new_model()
    crs = rqc.Crs(m)
    crs.create_xml()
    dims = tuple(spec['dims'])
    g = grr.RegularGrid(m, extent_kji = dims, dxyz = (10.0, 20.0, 5.0), crs_uuid = crs.uuid)
    g.create_xml(add_cell_length_properties = False)
    arrays, recs = {}, []

    def add(kind, title, facet, real, seed, uom):
        a = np.random.default_rng(seed).random(dims) + 0.1
        p = rqp.Property.from_array(m, a, 'test', title, g.uuid, property_kind = kind, indexable_element = 'cells', facet_type = 'direction' if facet else None, facet = facet, uom = uom, realization = real)
        arrays[str(p.uuid)] = a
        recs.append(dict(kind = kind, title = title, facet = facet, real = real, part = p.part, uuid = str(p.uuid)))

    for k, r in enumerate(spec['por']):
        add('porosity', 'POR', None, r, spec['seed'] + k, 'm3/m3')
    for k, r in enumerate(spec['ntg']):
        add('net to gross ratio', 'NTG', None, r, spec['seed'] + 7 + k, 'm3/m3')
    for p in spec['perms']:
        add('rock permeability', p['title'], p['facet'], p['real'], p['seed'], 'mD')
    pc = g.extract_property_collection()
    pool = [r for r in recs if spec['real'] is None or r['real'] == spec['real']]
    perms = [r for r in pool if r['kind'] == 'rock permeability']

    def one(kind):
        c = [r for r in pool if r['kind'] == kind]
        return c[0] if len(c) == 1 else None

    def pick(d):
        for f in DIRS[d]:
            c = [r for r in perms if r['facet'] == f]
            if len(c) > 1:
                return None
            if c:
                return c[0]
        for t in TITLES[d]:
            c = [r for r in perms if r['title'] == t]
            if len(c) > 1:
                return None
            if c:
                return c[0]
        return None

    kw = dict(realization = spec['real'], share_perm_parts = spec['share'], perm_k_mode = spec['mode'], perm_k_ratio = spec['ratio'])
    what = f'basic static properties {kw} of {[(r["kind"], r["title"], r["facet"], r["real"]) for r in recs]}'
    before = set(pc.parts())
    got = pc.basic_static_property_parts(**kw)
    eq(len(got), 5, 'number of parts')
    part = lambda r: None if r is None else r['part']
    ntg = one('net to gross ratio')
    eq(got[0], part(ntg), what + ': net to gross')
    eq(got[1], part(one('porosity')), what + ': porosity')
    made = set(pc.parts()) - before
    if len(perms) == 0:
        eq(tuple(got[2:]), (None, None, None), what + ': permeability from nothing')
        ok(not made, what + ': property made')
    elif len(perms) == 1:
        r = perms[0]
        f = r['facet']
        if spec['share']:
            eq(tuple(got[2:]), (r['part'],) * 3, what + ': the one permeability shared')
        else:
            w = [r['part'] if f is None or 'I' in f else None, r['part'] if f is not None and 'J' in f else None, r['part'] if f is not None and 'K' in f else None]
            eq(list(got[2:4]), w[:2], what + ': the one permeability')
            if w[2] is not None or spec['mode'] in (None, 'none', 'shared'):
                eq(got[4], w[2], what + ': the one permeability, K')
    else:
        ctx.nontrivial()
        i, j, k = pick('I'), pick('J'), pick('K')
        if spec['share']:
            i, j = i or j, j or i
        eq(got[2], part(i), what + ': I')
        eq(got[3], part(j), what + ': J')
        mode = spec['mode']
        if k is not None or mode in (None, 'none') or i is None or (mode == 'shared'):
            if k is None and mode == 'shared' and spec['share']:
                k = i
            eq(got[4], part(k), what + ': K')
            ok(not made, what + ': property made')
        else:
            ctx.nontrivial()
            ctx.label('K made')
            ok(got[4] is not None and made == {got[4]}, what + ': K not made', got[4], made)
            # I and J the same array, or the geometric mean of the two
            h = arrays[i['uuid']]
            if j is not None and j is not i:
                h = np.sqrt(h * arrays[j['uuid']])
            w = h * spec['ratio']
            if mode.startswith('ntg') and ntg is not None:
                w = w * arrays[ntg['uuid']]**(2 if mode == 'ntg squared' else 1)
            arr_close(pc.cached_part_array_ref(got[4]), w, 1e-9, what + ': K made')
            eq((pc.property_kind_for_part(got[4]), pc.facet_type_for_part(got[4]), pc.facet_for_part(got[4]), pc.uom_for_part(got[4]), pc.indexable_for_part(got[4])), ('rock permeability', 'direction', 'K', 'mD', 'cells'), what + ': metadata of K made')
            m.store_epc()
            m2 = ctx.reopen(m)
            x = rqp.Property(m2, uuid = m2.uuid_for_part(got[4]))
            arr_close(x.array_ref(), w, 1e-9, what + ': K made, reopened')
            m = m2
    for r in recs:
        arr_eq(rqp.Property(m, uuid = bu.uuid_from_string(r['uuid'])).array_ref(), arrays[r['uuid']], what + ': existing property altered')
    if not made:
        eq([None if u is None else str(u) for u in pc.basic_static_property_uuids(**kw)], [None if p is None else str(rqet.uuid_in_part_name(p)) for p in got], what + ': uuids')
        eq(pc.basic_static_property_parts_dict(**kw), dict(zip(['NTG', 'PORO', 'PERMI', 'PERMJ', 'PERMK'], got)), what + ': dictionary of parts')
        eq({k: None if u is None else str(u) for k, u in pc.basic_static_property_uuids_dict(**kw).items()}, {k: None if p is None else str(rqet.uuid_in_part_name(p)) for k, p in zip(['NTG', 'PORO', 'PERMI', 'PERMJ', 'PERMK'], got)}, what + ': dictionary of uuids')


# ---- keywords and units -------------------------------------------------------------------------------------------

KEYS = {
    'rock volume': {('netgross', 'gross'): 'BV BRV', ('netgross', 'net'): 'NETV NRV'},
    'pore volume': {None: 'PV PVR PORV'},
    'net to gross ratio': {None: 'NTG NETGRS'},
    'porosity': {None: 'POR PORO POROSITY'},
    'permeability thickness': {None: 'KH'},
    'pressure': {None: 'P PRESSURE'},
    'solution gas-oil ratio': {None: 'RS'},
    'vapor oil-gas ratio': {None: 'RV'},
    'thermodynamic temperature': {None: 'TEMP TEMPERATURE'},
    'saturation': {('what', 'water'): 'SW SATW', ('what', 'oil'): 'SO SATO SOIL', ('what', 'gas'): 'SG SATG', ('what', 'water minimum'): 'SWL', ('what', 'water residual'): 'SWR', ('what', 'gas minimum'): 'SGL', ('what', 'gas residual'): 'SGR', ('what', 'water residual to oil'): 'SWRO',
                   ('what', 'gas residual to oil'): 'SGRO', ('what', 'oil residual'): 'SOR', ('what', 'water maximum'): 'SWU', ('what', 'gas maximum'): 'SGU'},
    'thickness': {('netgross', 'gross'): 'DZ DZC', ('netgross', 'net'): 'DZN DZNET'},
    'depth': {('what', 'cell centre'): 'MDEP MIDS', ('what', 'cell top'): 'DEPTH TOPS'},
    'index': {('what', 'uid'): 'UID'},
    'fluid volume': {('what', 'water'): 'WIP', ('what', 'oil'): 'OIP', ('what', 'gas'): 'GIP', ('what', 'water (mobile)'): 'MOBW', ('what', 'oil (mobile)'): 'MOBO', ('what', 'gas (mobile)'): 'MOBG', ('what', 'oil condensate'): 'OCIP'},
    'transmissibility multiplier': {('direction', 'I'): 'TMX TMFLX MULTX', ('direction', 'J'): 'TMY TMFLY MULTY', ('direction', 'K'): 'TMZ TMFLZ MULTZ'},
    'property multiplier': {('what', 'rock volume'): 'MULTBV', ('what', 'pore volume'): 'MULTPV'},
    'code': {('what', 'inactive'): 'KID DEADCELL INACTIVE', ('what', 'dad'): 'DAD', ('what', 'unpack'): 'UNPACK'},
    'cell length': {('direction', 'I'): 'DX DXC', ('direction', 'J'): 'DY DYC'},
    'rock permeability': {('direction', 'I'): 'KX KI PERMX PERMI', ('direction', 'J'): 'KY KJ PERMY PERMJ', ('direction', 'K'): 'KZ KK PERMZ PERMK', None: 'PERM'},
    'transmissibility': {('direction', 'I'): 'TX TI TRANSX TRANSI', ('direction', 'J'): 'TY TJ TRANSJ', ('direction', 'K'): 'TZ TK TRANSZ', None: 'TRANSMISSIBILITY'},
    'active': {None: 'LIVECELL ACTIVE ACT ACTNUM'},
    'region initialization': {None: 'REGION REG1 CREG CREGION', ('what', 'equilibration'): 'IEQUIL', ('what', 'pvt'): 'IPVT', ('what', 'relative permeability'): 'IRELPM', ('what', 'rock'): 'IROCK', ('what', 'region'): 'IREGION', ('what', 'water'): 'IWATER', ('what', 'reg'): 'IREG'},
    None: {None: 'XYZZY Q KKK MULT ZCORN'},
}
TABLE = [(w, k, f) for k, d in KEYS.items() for f, ws in d.items() for w in ws.split()]


@check('keywords', st.fixed_dictionaries(dict(word = st.integers(0, len(TABLE) - 1), case = st.integers(0, 2), kinds = st.lists(st.integers(0, len(TABLE) - 1), min_size = 1, max_size = 5), xy = st.sampled_from(['m', 'm', 'ft', 'cm']), z = st.sampled_from(['m', 'm', 'ft', 'cm']), same = st.booleans(), hi = st.sampled_from([None, 0.0, 0.5, 1.0, 1.5, 55.0, 100.0, 101.0, -0.5, 300.0, 3000.0, 7000.0, 20000.0]), support = st.booleans(), seed = seeds)),
       quick = 400, thorough = 20000, shards = 3, rule = 'the keyword has a property kind')
def keywords(spec, ctx):
    word, kind, facet = TABLE[spec['word']]
    word = [word, word.lower(), word.capitalize()][spec['case']]
    got = rqp_c.property_kind_and_facet_from_keyword(word)
    eq(tuple(got), (kind,) + (facet or (None, None)), f'kind and facet for keyword {word}')
    m = ctx.new_model()
    z = spec['xy'] if spec['same'] else spec['z']
    crs = rqc.Crs(m, xy_units = spec['xy'], z_units = z)
    crs.create_xml()
    g = grr.RegularGrid(m, extent_kji = (2, 1, 3), dxyz = (10.0, 20.0, 5.0), crs_uuid = crs.uuid)
    g.create_xml(add_cell_length_properties = False)
    if kind is not None:
        ctx.nontrivial()
        u = spec['xy'] if spec['xy'] == z else None
        if not spec['support']:
            u = None
        ft, fc = facet or (None, None)
        hi = spec['hi']
        if kind == 'permeability thickness' and not spec['support']:
            pass
        else:
            uom = rqp_c.guess_uom(kind, None if hi is None else min(0.0, hi), hi, g if spec['support'] else None, facet_type = ft, facet = fc)
            vol = None if u is None else u + '3'
            frac = 'Euc' if u is None else f'{u}3/{u}3'
            if hi is not None and (hi < 0 or hi > 100.0):
                frac = None
            elif hi is not None and hi > 1.0:
                frac = '%'
            want = {'rock volume': vol, 'pore volume': 'bbl' if u == 'ft' else vol, 'depth': z if spec['support'] else None, 'cell length': u, 'net to gross ratio': frac, 'porosity': frac, 'saturation': frac, 'rock permeability': 'mD', 'permeability thickness': 'mD.ft' if z == 'ft' else 'mD.m',
                    'fluid volume': {'m': 'm3', 'cm': 'cm3', 'ft': '1000 ft3' if fc == 'gas' else 'bbl', None: None}[u], 'transmissibility': {'m': 'm3.cP/(kPa.d)', 'ft': 'bbl.cP/(psi.d)', 'cm': 'cm3.cP/(psi.d)', None: None}[u],
                    'transmissibility multiplier': 'Euc', 'property multiplier': 'Euc', 'solution gas-oil ratio': {'m': 'm3/m3', 'ft': '1000 ft3/bbl', 'cm': 'cm3/cm3', None: None}[u], 'vapor oil-gas ratio': {'m': 'm3/m3', 'ft': '0.001 bbl/ft3', 'cm': 'cm3/cm3', None: None}[u]}
            pr = {'m': 'kPa', 'ft': 'psi', 'cm': 'psi'}.get(u)
            if u is None and hi is not None and hi != 0.0:
                pr = 'kPa' if hi > 10000 else 'bar' if hi < 500 else 'psi' if hi < 5000 else None
            want['pressure'] = pr
            if not (kind == 'fluid volume' and u == 'ft' and fc == 'gas (mobile)'):
                eq(uom, want.get(kind), f'unit guessed for {kind} ({facet}), maximum {hi}, crs units {spec["xy"]} and {z}, support {spec["support"]}')
            if uom is not None and kind != 'transmissibility':  # unit viscosity transmissibilities have no unit in the standard
                ok(uom in wam.valid_uoms(), f'unit guessed for {kind} is not a valid unit', uom)
    # collection of the properties meant by a keyword
    recs = []
    for q in spec['kinds']:
        w, k, f = TABLE[q]
        if k in (None, 'code', 'active'):  # whole numbers
            continue
        p = rqp.Property.from_array(m, np.random.default_rng(spec['seed']).random((2, 1, 3)), 'test', w, g.uuid, property_kind = k, indexable_element = 'cells', facet_type = f[0] if f else None, facet = f[1] if f else None, uom = 'm')
        recs.append((p.part, k, f))
    g.property_collection = None
    pc = g.extract_property_collection()
    view = rqp_c.property_collection_for_keyword(pc, word)
    if kind is None:
        ok(view is None, 'collection for an unknown keyword')
    else:
        eq(sorted(view.parts()), sorted(p for p, k, f in recs if k == kind and (facet is None or f == facet)), f'properties for keyword {word} among {[r[1:] for r in recs]}')
    eq(sorted(pc.parts()), sorted(r[0] for r in recs), 'the collection itself changed')
    # property parts straight from the model
    for ft, fc in ((None, None), facet or (None, None), ('none', None), ('direction', '*')):
        if kind is None or (ft == 'none'):
            continue
        for pk in (kind, None):
            parts = rqp_c.property_parts(m, 'Continuous', property_kind = pk, facet_type = ft, facet = fc)
            eq(sorted(parts), sorted(p for p, k, f in recs if (pk is None or k == pk) and (ft is None or (f is not None and f[0] == ft and fc in ('*', f[1])))), f'property parts with kind {pk}, facet {ft} {fc}')
    if recs and kind is not None:
        sel = [p for p, k, f in recs if k == kind]
        r = raises(lambda: rqp_c.property_part(m, 'ContinuousProperty', property_kind = kind), AssertionError)
        eq(bool(r), len(sel) > 1, f'more than one part of kind {kind} refused')
        if len(sel) <= 1:
            eq(rqp_c.property_part(m, 'ContinuousProperty', property_kind = kind), sel[0] if sel else None, f'the part of kind {kind}')


# ---- edges per column and time series views -----------------------------------------------------------------------


@check('views', st.fixed_dictionaries(dict(nj = st.integers(1, 3), ni = st.integers(1, 3), nk = st.integers(1, 2), seed = seeds, dtype = st.sampled_from(['float64', 'float32', 'int64', 'bool']), props = st.lists(st.tuples(st.integers(0, 1), st.integers(0, 2), st.integers(0, 3), st.sampled_from([None, 0, 1]), st.sampled_from([None, 'water', 'oil']), st.sampled_from(['sat', 'sat', 'por'])).map(list), min_size = 1, max_size = 9))),
       quick = 200, thorough = 10000, shards = 3, rule = 'the example has at least one companion in its time series')
def views(spec, ctx):
    rng = np.random.default_rng(spec['seed'])
    nj, ni, nk = spec['nj'], spec['ni'], spec['nk']
    e = (rng.random((nj, ni, 2, 2)) * 9).astype(spec['dtype']) if spec['dtype'] != 'bool' else rng.random((nj, ni, 2, 2)) < 0.5
    keep = e.copy()
    r = rqp_c.reformat_column_edges_to_resqml_format(e)
    arr_eq(e, keep, 'array given altered')
    # resqml order of the edges of a column is I-, J+, I+, J-; the application's axes are (J, I) and (minus, plus)
    arr_eq(r, np.stack([e[:, :, 1, 0], e[:, :, 0, 1], e[:, :, 1, 1], e[:, :, 0, 0]], axis = 2), 'column edges in the order of the standard')
    back = rqp_c.reformat_column_edges_from_resqml_format(r)
    arr_eq(back, e, 'column edges there and back')
    eq((r.dtype, back.dtype), (e.dtype, e.dtype), 'type of the elements')
    m = ctx.new_model()
    crs = rqc.Crs(m)
    crs.create_xml()
    g = grr.RegularGrid(m, extent_kji = (nk, nj, ni), dxyz = (10.0, 20.0, 5.0), crs_uuid = crs.uuid)
    g.create_xml(add_cell_length_properties = False)
    ts = []
    for y in (2000, 2001):
        t = rts.TimeSeries(m, first_timestamp = f'{y}-01-01Z')
        for _ in range(3):
            t.extend_by_days(30)
        t.create_xml()
        ts.append(t.uuid)
    f6 = rng.random((nk, nj, ni, 3, 2))
    pc0 = g.extract_property_collection() or rqp.PropertyCollection(g)
    d6 = pc0.discombobulated_face_array(f6)
    eq(d6.shape, (nk, nj, ni, 6), 'shape of face array for the standard')
    # order documented for faces per cell: K-, K+, J-, I+, J+, I-
    arr_eq(d6, np.stack([f6[..., 0, 0], f6[..., 0, 1], f6[..., 1, 0], f6[..., 2, 1], f6[..., 1, 1], f6[..., 2, 0]], axis = -1), 'face array in the order of the standard')
    arr_eq(pc0.combobulated_face_array(d6), f6, 'face array there and back')
    recs = []
    seen = set()
    for t, tt, ti, real, fc, kind in spec['props']:
        key = (t, tt, ti, real, fc, kind)
        if key in seen:
            continue
        seen.add(key)
        timed = tt < 2
        a = rng.random((nk, nj, ni))
        p = rqp.Property.from_array(m, a, 'test', 'title' + str(t), g.uuid, property_kind = {'sat': 'saturation', 'por': 'porosity'}[kind], indexable_element = 'cells', facet_type = 'what' if fc else None, facet = fc, uom = 'm3/m3', realization = real, time_series_uuid = ts[tt] if timed else None, time_index = ti if timed else None)
        recs.append((p.part, ('title' + str(t), tt if timed else None, real, fc, kind), ti if timed else None, a))
    g.property_collection = None
    pc = g.extract_property_collection()
    for part, key, ti, a in recs:
        text = {'sat': 'saturation', 'por': 'porosity'}[key[4]] + (f': {key[3]}' if key[3] else '') + (f'; timestep: {ti}' if ti is not None else '')
        eq(pc.part_str(part), text + f' ({key[0]})', 'description of the part')
        eq(pc.part_str(part, include_citation_title = False), text, 'description of the part without title')
        eq(pc.part_filename(part), {'sat': 'saturation', 'por': 'porosity'}[key[4]] + (f'_{key[3]}' if key[3] else '') + (f'_ts_{ti}' if ti is not None else ''), 'file name for the part')
        if ti is None:
            continue
        view = rqp_c.property_over_time_series_from_collection(pc, part)
        want = [r for r in recs if r[1] == key]
        eq(sorted(view.parts()), sorted(r[0] for r in want), f'parts over the time series of {key}')
        eq(sorted(view.time_index_list()), sorted(r[2] for r in want), 'time indices of the view')
        if len({r[2] for r in want}) == len(want) and len(want) >= 1:
            arr = view.time_series_array_ref()
            for n, x in enumerate(sorted(want, key = lambda r: r[2])):
                at = arr[n] if arr.shape[0] == len(want) else arr[x[2]]
                arr_eq(at, x[3], f'array at time {x[2]}')
        if len(want) > 1:
            ctx.nontrivial()
