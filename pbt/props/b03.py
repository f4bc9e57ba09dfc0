"""B03: unit factors recomputed from a reference table of unit definitions and from the structure of composite unit names.

The reference table (pbt/data/uom_ref.json) is a copy of the Energistics definitions; composite units are also recomputed
from the definitions of their components, and about fifty common units from factors typed in independently.
"""
import json, os, re, warnings
import numpy as np
from pbt.core import check, st, ok, eq, arr_eq, arr_close, close, fail, refuses, raises
from pbt.lib.gen import seeds, fl
import resqpy.weights_and_measures as wam
import resqpy.weights_and_measures.weights_and_measures as WAM
from resqpy.olio.exceptions import IncompatibleUnitsError, InvalidUnitError

REF = json.load(open(os.path.join(os.path.dirname(os.path.dirname(__file__)), 'data', 'uom_ref.json')))
U = REF['units']  # uom -> dimension, base, A, B, C, D
NAMES = sorted(U)
BASES = {}
for _u in NAMES:
    BASES.setdefault((U[_u][0], U[_u][1]), []).append(_u)
GROUPS = sorted(BASES)
QUANTS = sorted(REF['quantities'])

KNOWN = {  # independent definitions: factor to SI
    'm': 1, 'ft': 0.3048, 'ft[US]': 1200 / 3937, 'in': 0.0254, 'cm': 0.01, 'km': 1000, 'mm': 0.001, 'yd': 0.9144, 'mi': 1609.344, 'fathom': 1.8288,
    's': 1, 'min': 60, 'h': 3600, 'd': 86400, 'wk': 604800, 'a': 365.25 * 86400, 'ms': 0.001,
    'kg': 1, 'g': 0.001, 'lbm': 0.45359237, 't': 1000,
    'm3': 1, 'ft3': 0.028316846592, 'bbl': 0.158987294928, 'L': 0.001, 'cm3': 1e-6, 'gal[US]': 0.003785411784, '1000 ft3': 28.316846592,
    '1E6 ft3': 28316.846592, '1000 bbl': 158.987294928, '1E6 bbl': 158987.294928, '1000 m3': 1000, '1E6 m3': 1e6,
    'Pa': 1, 'kPa': 1000, 'MPa': 1e6, 'bar': 1e5, 'atm': 101325, 'psi': 6894.757293168361, 'kgf/cm2': 98066.5, 'mbar': 100,
    'N': 1, 'lbf': 4.4482216152605, 'J': 1, 'kJ': 1000, 'W': 1, 'Pa.s': 1, 'cP': 0.001, 'P': 0.1,
    'm2': 1, 'ft2': 0.09290304, 'ha': 10000, 'cm2': 1e-4, 'mD': 9.869233e-16, 'D': 9.869233e-13,
    'm3/d': 1 / 86400, 'bbl/d': 0.158987294928 / 86400, 'ft3/d': 0.028316846592 / 86400, '1000 ft3/d': 28.316846592 / 86400,
    'g/cm3': 1000, 'kg/m3': 1, 'lbm/ft3': 0.45359237 / 0.028316846592, 'cm3/h': 1e-6 / 3600, 'rad': 1, 'dega': np.pi / 180, 'rev': 2 * np.pi,
    '%': 0.01, 'Euc': 1, 'ppm': 1e-6
}


def lin(u):
    return U[u][3] / U[u][4]


def composite(u):
    """Factor of a composite unit from its components; None if u is atomic or not understood."""
    m = re.match(r'^(\d+(?:/\d+)?(?:\.\d+)?(?:E-?\d+)?) (.+)$', u)
    if m:
        c = component(m.group(2))
        n = m.group(1)
        n = float(n.split('/')[0]) / float(n.split('/')[1]) if '/' in n else float(n)
        return None if c is None else n * c
    depth = 0
    for n, ch in enumerate(u):
        depth += (ch in '([') - (ch in ')]')
        if ch == '/' and depth == 0:
            a, b = component(u[:n]), component(u[n + 1:])
            return None if a is None or b is None else a / b
    depth, parts, last = 0, [], 0
    for n, ch in enumerate(u):
        depth += (ch in '([') - (ch in ')]')
        if ch == '.' and depth == 0:
            parts.append(u[last:n])
            last = n + 1
    parts.append(u[last:])
    if len(parts) > 1:
        r = 1.0
        for p in parts:
            v = component(p)
            if v is None:
                return None
            r *= v
        return r
    m = re.match(r'^([A-Za-z\[\]]+?)([2-4])$', u)
    if m and m.group(1) in U:
        return lin(m.group(1))**int(m.group(2))
    return None


def component(u):
    if u.startswith('(') and u.endswith(')'):
        u = u[1:-1]
    if re.fullmatch(r'\d+(\.\d+)?(E\d+)?', u):
        return float(u)
    if u in U and U[u][2] == 0:
        return KNOWN.get(u, lin(u))
    return composite(u)


def ref_convert(x, a, b):
    _, _, A1, B1, C1, D1 = U[a]
    _, _, A2, B2, C2, D2 = U[b]
    y = (A1 + B1 * x) / (C1 + D1 * x)
    return (A2 - C2 * y) / (D2 * y - B2)


def scale_of(a, b):
    """Magnitude by which an error in a value in units a is multiplied, with an offset allowance."""
    return abs(lin(a) / lin(b))


@check('definitions', st.sampled_from(NAMES), quick = 1400, thorough = 6000, shards = 2,
       rule = 'every listed unit in random order; non-trivial when the unit is composite or independently defined')
def definitions(u, ctx):
    ok(u in wam.valid_uoms(), 'unit is no longer listed', u)
    eq(wam.rq_uom(u), u, 'unit does not resolve to itself')
    base, dim, f = wam.get_conversion_factors(u)
    eq((dim, base), tuple(U[u][:2]), 'dimension and base unit')
    x = np.array([0.0, 1.0, -2.5, 1234.5])
    y = (f[0] + f[1] * x) / (f[2] + f[3] * x)
    A, B, C, D = U[u][2:]
    arr_close(y, (A + B * x) / (C + D * x), 0.0, 'factors of ' + u, rel = 1e-9)
    if u in wam.valid_uoms():
        eq(wam.get_conversion_factors(base)[2], (0, 1, 1, 0), 'base unit is not its own base')
    if f[0] == 0:
        c = composite(u)
        if c is not None:
            close(f[1] / f[2], c, 0.0, 'factor of composite ' + u, rel = 2e-6)
            ctx.label('composite')
            ctx.nontrivial()
        if u in KNOWN:
            close(f[1] / f[2], KNOWN[u], 0.0, 'factor of ' + u, rel = 2e-7)
            ctx.label('independent')
            ctx.nontrivial()
    attr = wam.valid_uoms(return_attributes = True)
    ok(u in attr and attr[u]['dimension'] == dim, 'attributes')


OFFSET = [g for g in GROUPS if any(U[u][2] for u in BASES[g])]  # groups with a unit that has an offset (temperature)


@st.composite
def conversions(draw):
    g = draw(st.sampled_from(GROUPS) | st.sampled_from([x for x in GROUPS if len(BASES[x]) > 3]) | st.sampled_from(OFFSET))
    us = [draw(st.sampled_from(BASES[g])) for _ in range(3)]
    return dict(units = us, x = draw(fl(-1000, 1000)), shape = draw(st.lists(st.integers(1, 4), min_size = 1, max_size = 3)), seed = draw(seeds),
                dtype = draw(st.sampled_from(['float64', 'float32'])))


@check('convert', conversions(), quick = 2500, thorough = 60000, shards = 2,
       rule = 'any three units of the same base, scalars and arrays; non-trivial when the units are distinct')
def convert(spec, ctx):
    a, b, c = spec['units']
    x = spec['x']
    tol = 1e-9 * max(1.0, abs(x), 300.0 if U[a][2] or U[b][2] or U[c][2] else 0)
    want = ref_convert(x, a, b)
    y = wam.convert(x, a, b)
    close(y, want, tol * scale_of(a, b) * 3, f'{x} {a} in {b}', rel = 1e-9)
    close(wam.convert(y, b, a), x, tol * 3, f'back from {b} to {a}', rel = 1e-9)
    z = wam.convert(wam.convert(x, a, c), c, b)
    close(z, y, tol * scale_of(a, b) * 10, f'{a} to {b} by way of {c}', rel = 1e-9)
    eq(wam.convert(x, a, a), x, 'conversion to the same unit')
    rng = np.random.default_rng(spec['seed'])
    arr = (rng.random(spec['shape']) * 200 - 100).astype(spec['dtype'])
    arr.flat[0] = np.nan if spec['seed'] % 3 == 0 else arr.flat[0]
    keep = arr.copy()
    rel = 1e-9 if spec['dtype'] == 'float64' else 1e-4
    want = ref_convert(keep.astype(float), a, b)
    atol = rel * 400 * scale_of(a, b)
    got = wam.convert(arr, a, b)
    arr_eq(arr, keep, 'argument of convert() was modified')
    arr_close(got, want, atol, f'array {a} to {b}', rel = rel)
    if not (spec['dtype'] == 'float32' and (scale_of(a, b) > 1e30 or scale_of(a, b) < 1e-30)):
        if (U[a][2] or U[b][2]) and a != b:
            try:
                r = wam.convert(arr, a, b, inplace = True)
                arr_close(arr, want, atol, 'in place conversion with offset', rel = rel)
            except NotImplementedError:
                arr_eq(arr, keep, 'array modified though conversion was refused')
            ctx.label('offset')
        else:
            r = wam.convert(arr, a, b, inplace = True)
            ok(r is arr, 'in place conversion returned another array')
            arr_close(arr, want, atol, f'in place {a} to {b}', rel = rel)
    ctx.nontrivial(a != b)


@st.composite
def incompatible(draw):
    return dict(a = draw(st.sampled_from(NAMES)), b = draw(st.sampled_from(NAMES)), q = draw(st.sampled_from(QUANTS)), pick = draw(st.integers(0, 999)))


@check('compatibility', incompatible(), quick = 2000, thorough = 40000,
       rule = 'random unit pairs and quantities; non-trivial when the pair must be refused')
def compatibility(spec, ctx):
    a, b, q = spec['a'], spec['b'], spec['q']
    members = REF['quantities'][q]
    if a != b and (U[a][0] != U[b][0] or (U[a][0] == 'none' and U[a][1] != U[b][1])):
        with refuses(f'{a} to {b}', IncompatibleUnitsError):
            wam.convert(1.0, a, b)
        with refuses(f'{a} to {b} in place', IncompatibleUnitsError):
            wam.convert(np.ones(3), a, b, inplace = True)
        ctx.nontrivial()
    else:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            close(wam.convert(2.0, a, b), ref_convert(2.0, a, b), 1e-300, 'compatible conversion', rel = 1e-9)
        ctx.label('compatible')
    ok(q in wam.valid_quantities(), 'quantity not listed', q)
    listed = wam.valid_uoms(quantity = q)
    ok(set(members) <= set(listed), 'units missing for quantity', q, set(members) - set(listed))
    ok(q in wam.valid_quantities(return_attributes = True))
    for u in listed:
        ok(u in wam.valid_uoms(), 'unit of quantity not recognised', u)
        eq(wam.rq_uom(u, quantity = q), u, 'rq_uom with quantity')
    dims = {U[u][0] for u in listed if u in U}
    eq(len(dims), 1, f'dimensions of units of {q}')
    if a in listed:
        eq(wam.rq_uom(a, quantity = q), a)
    else:
        with refuses(f'{a} for {q}', InvalidUnitError):
            wam.rq_uom(a, quantity = q)
        with refuses(f'conversion from {a} for {q}', InvalidUnitError):
            wam.convert(1.0, a, members[0], quantity = q)
        with refuses(f'conversion to {a} for {q}', InvalidUnitError):
            wam.convert(1.0, members[0], a, quantity = q)
    m0, m1 = members[spec['pick'] % len(members)], members[(spec['pick'] * 7 + 3) % len(members)]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        close(wam.convert(3.5, m0, m1, quantity = q), ref_convert(3.5, m0, m1), 1e-300, f'{m0} to {m1} for {q}', rel = 1e-9)


ALIASES = sorted((al, u) for u, als in REF['aliases'].items() for al in als)
EXACT = set(NAMES)


@st.composite
def alias_cases(draw):
    a, b = draw(st.sampled_from(ALIASES)), draw(st.sampled_from(ALIASES))
    return dict(a = a, b = b, upper = [draw(st.booleans()) for _ in range(10)], pad = draw(st.sampled_from(['', ' ', '  '])),
                junk = draw(st.text('qxzjv#', min_size = 2, max_size = 6)))


@check('aliases', alias_cases(), quick = 1500, thorough = 20000,
       rule = 'aliases in any letter case, padded, bracketed and combined as fractions; non-trivial when the alias is not itself a unit')
def aliases(spec, ctx):
    al, u = spec['a']
    mixed = ''.join(ch.upper() if f else ch for ch, f in zip(al, spec['upper'] * 3))
    for text in (al, mixed):
        if text in EXACT:
            eq(wam.rq_uom(text), text, 'exact unit')
            continue
        if text.casefold() in ('m', 'ft', 'm3', 'ft3', 'm3/m3', 'ft3/ft3', 'bbl', 'bar', 'psi', 'm3/d', 'bbl/d'):
            eq(wam.rq_uom(text), text.casefold(), 'case insensitive unit')
            continue
        eq(wam.rq_uom(text), u, f'alias {text}')
        eq(wam.rq_uom(spec['pad'] + text + spec['pad']), u, f'padded alias {text}')
        eq(wam.rq_uom('(' + text + ')'), u, 'bracketed alias')
        ctx.nontrivial()
        close(wam.convert(2.5, text, U[u][1]), ref_convert(2.5, u, U[u][1]), 0.0, f'conversion from alias {text}', rel = 1e-9)
        close(wam.convert(2.5, U[u][1], text), ref_convert(2.5, U[u][1], u), 1e-300, f'conversion to alias {text}', rel = 1e-9)
    bl, bu = spec['b']
    a_ = al if al in EXACT else u
    b_ = bl if bl in EXACT else bu
    frac = al + '/' + bl
    want = f'{a_}/{b_}'
    if frac in EXACT or '/' in al or '/' in bl or frac.casefold() in EXACT or frac.casefold() in [x.casefold() for x, _ in ALIASES]:
        pass
    elif want in EXACT:
        eq(wam.rq_uom(frac), want, f'fraction {frac}')
        ctx.label('fraction')
    elif al not in EXACT and bl not in EXACT:
        with refuses(f'fraction {frac}', InvalidUnitError):
            wam.rq_uom(frac)
    eq(wam.rq_uom_list([u, bu]), [u, bu])
    for bad in (spec['junk'], '', None):
        with refuses(f'unit {bad}', InvalidUnitError):
            wam.rq_uom(bad)
    if u in REF['quantities']['length'] and al not in EXACT:
        eq(wam.rq_length_unit(al), u)
    elif u not in REF['quantities']['length']:
        with refuses('length unit ' + u, InvalidUnitError):
            wam.rq_length_unit(u)
    if u in REF['quantities']['time'] and al not in EXACT:
        eq(wam.rq_time_unit(al), u)
    elif u not in REF['quantities']['time']:
        with refuses('time unit ' + u, InvalidUnitError):
            wam.rq_time_unit(u)


SPECIAL = [('length', wam.convert_lengths), ('time', wam.convert_times), ('pressure', wam.convert_pressures), ('volume', wam.convert_volumes),
           ('volume per time', wam.convert_flow_rates)]


@st.composite
def special_cases(draw):
    n = draw(st.integers(0, 4))
    ms = REF['quantities'][SPECIAL[n][0]]
    tq = ['volume', 'dynamic viscosity', 'pressure', 'time']
    common = dict(zip(tq, (['m3', 'ft3', 'bbl', 'cm3'], ['cP', 'Pa.s', 'P'], ['kPa', 'bar', 'psi', 'kgf/cm2'], ['d', 'h', 's'])))
    tr = [[draw(st.sampled_from(common[q]) | st.sampled_from(REF['quantities'][q])) for q in tq] for _ in range(2)]
    return dict(n = n, a = draw(st.sampled_from(ms)), b = draw(st.sampled_from(ms)), x = draw(fl(-50, 500)), seed = draw(seeds), invert = draw(st.booleans()),
                tr = tr)


CONSTANTS = [(f'{p}_to_{q}', a, b) for x, y in ((('feet', 'ft'), ('metres', 'm')), (('ft3', 'ft3'), ('m3', 'm3')), (('bbl', 'bbl'), ('m3', 'm3')), (('psi', 'psi'), ('kPa', 'kPa')), (('d', 'd'), ('s', 's'))) for (p, a), (q, b) in ((x, y), (y, x))]


@check('special', special_cases(), quick = 1500, thorough = 30000,
       rule = 'the specialised in situ conversions, scalar and array; non-trivial when the two units differ')
def special(spec, ctx):
    for name, a, b in CONSTANTS:
        close(getattr(WAM, name), ref_convert(1.0, a, b), 1e-12, f'constant {name}')
    q, fn = SPECIAL[spec['n']]
    a, b, x = spec['a'], spec['b'], spec['x']
    want = ref_convert(x, a, b)
    close(fn(x, a, b), want, 1e-300, f'{q}: {a} to {b}', rel = 1e-9)
    arr = np.random.default_rng(spec['seed']).random((2, 3)) * 100
    w = ref_convert(arr.copy(), a, b)
    r = fn(arr, a, b)
    ok(r is arr, 'array not converted in situ')
    arr_close(arr, w, 0.0, f'{q} array: {a} to {b}', rel = 1e-9)
    if spec['n'] == 1:
        close(wam.convert_times(x, a, b, invert = spec['invert']), ref_convert(x, b, a) if spec['invert'] else want, 1e-300, 'invert', rel = 1e-9)
    with refuses('unit of another quantity', InvalidUnitError):
        fn(1.0, a, 'degC')
    # transmissibility: A.B/(C.D)
    t1, t2 = spec['tr']
    s1, s2 = ('{}.{}/({}.{})'.format(*t) for t in (t1, t2))
    if not any('.' in t[0] or '(' in t[1] or '/(' in t[1] or '.' in t[3] for t in (t1, t2)):
        factor = 1.0
        for n, (u1, u2) in enumerate(zip(t1, t2)):
            f = lin(u1) / lin(u2)
            factor = factor * f if n < 2 else factor / f
        close(wam.convert_transmissibilities(x, s1, s2), x * factor, 1e-300, f'{s1} to {s2}', rel = 1e-9)
        arr = np.random.default_rng(spec['seed']).random(4) * 100
        keep = arr.copy()
        r = wam.convert_transmissibilities(arr, s1, s2)
        ok(r is arr, 'array not converted in situ')
        arr_close(arr, keep * factor, 0.0, 'transmissibility array', rel = 1e-9)
        ctx.label('transmissibility')
        for n in range(len(['volume', 'dynamic viscosity', 'pressure', 'time'])):
            t3 = list(t2)
            t3[n] = 'kg'
            with refuses('bad transmissibility component'):
                wam.convert_transmissibilities(1.0, s1, '{}.{}/({}.{})'.format(*t3))
    ctx.label(q)
    ctx.nontrivial(a != b)


NEXUS = {
    'METRIC': 'm m2 m3 m3/m3 mD d degC kg/m3 kPa m3/d', 'METKG/CM2': 'm m2 m3 m3/m3 mD d degC kg/m3 kgf/cm2 m3/d',
    'METBAR': 'm m2 m3 m3/m3 mD d degC kg/m3 bar m3/d', 'LAB': 'cm cm2 cm3 cm3/cm3 mD h degC g/cm3 psi cm3/h',
    'ENGLISH': 'ft ft2 ft3 ft3/ft3 mD d degF lbm/ft3 psi bbl/d'
}
NQ = ['length', 'area', 'volume', 'volume per volume', 'rock permeability', 'time', 'thermodynamic temperature', 'mass per volume', 'pressure',
      'volume per time']
FLAV = {('volume', 'PV'): 'ft3', ('volume', 'OVER PV'): 'bbl', ('volume per time', 'surface gas rate'): '1000 ft3/d', ('volume per volume', 'FVF'): 'bbl/bbl',
        ('volume per volume', 'GOR'): '1000 ft3/bbl', ('volume per volume', 'saturation'): 'ft3/ft3'}


@check('nexus', st.tuples(st.sampled_from(sorted(NEXUS)), st.sampled_from(NQ), st.sampled_from([None] + sorted({f for _, f in FLAV})), st.booleans()),
       quick = 400, thorough = 1000, rule = 'unit systems, quantities and flavours; non-trivial always')
def nexus(spec, ctx):
    system, q, flav, lower = spec
    want = NEXUS[system].split()[NQ.index(q)]
    qq = 'permeability rock' if q == 'rock permeability' and lower else q
    s = system.lower() if lower else system
    if system == 'ENGLISH' and flav is not None:
        if (q, flav) in FLAV:
            want = FLAV[(q, flav)]
        else:
            with refuses('flavour for wrong quantity'):
                wam.nexus_uom_for_quantity(s, qq, english_volume_flavour = flav)
            return
    got = wam.nexus_uom_for_quantity(s, qq, english_volume_flavour = flav)
    eq(got, want, f'{system} {q} {flav}')
    ok(got in wam.valid_uoms(), 'not a valid unit', got)
    ctx.nontrivial()
