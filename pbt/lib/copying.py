"""Comparison of copied parts with their source, from the xml and arrays alone."""
import h5py

from pbt.core import *
from pbt.lib import zoo as Z

CONS = ('OrganizationFeature', 'GeobodyFeature', 'BoundaryFeature', 'FrontierFeature', 'GeologicUnitFeature', 'FluidBoundaryFeature', 'RockFluidUnitFeature', 'TectonicBoundaryFeature', 'GeneticBoundaryFeature', 'WellboreFeature',
        'FaultInterpretation', 'EarthModelInterpretation', 'HorizonInterpretation', 'GeobodyBoundaryInterpretation', 'GeobodyInterpretation', 'WellboreInterpretation', 'LocalDepth3dCrs', 'LocalTime3dCrs', 'TimeSeries', 'StringTableLookup', 'PropertyKind')
UNTITLED = ('obj_LocalDepth3dCrs', 'obj_LocalTime3dCrs', 'obj_TimeSeries', 'obj_StringTableLookup')  # equivalence of these does not consider the title


def content(state, part, depth = 0, title = True):
    """Content of a part with identity, dates and hdf5 file identity left out and references replaced by the content referred to."""
    by_uuid = {d['uuid']: n for n, d in state.items()}

    def walk(x, top):
        tag, attrs, text, kids = x
        name = Z.local(tag)
        attrs = tuple(a for a in attrs if Z.local(a[0]) not in ('uuid', 'schemaVersion'))
        if top and name == 'Citation':
            return ('Citation', next((k[2] for k in kids if Z.local(k[0]) == 'Title'), None) if title else None)
        names = [Z.local(k[0]) for k in kids]
        if 'ContentType' in names and 'UUID' in names:
            ct = kids[names.index('ContentType')][2]
            u = kids[names.index('UUID')][2].lower()
            if 'EpcExternal' in ct:
                return (name, 'hdf5')
            return (name, ct, content(state, by_uuid[u], depth + 1) if u in by_uuid and depth < 6 else u)
        ks = [walk(k, False) for k in kids]
        if name == 'RealizationIndex':
            return ('RealizationIndex',)
        return (name, attrs, text, tuple(ks))

    tag, attrs, text, kids = state[part]['xml']
    ks = [walk(k, True) for k in kids]
    # equivalence of time series and string lookups does not consider extra metadata either
    extra = sorted(repr(k) for k in ks if k[0] == 'ExtraMetadata' and state[part]['type'] not in ('obj_TimeSeries', 'obj_StringTableLookup'))
    return (Z.local(tag), tuple(k for k in ks if k[0] not in ('ExtraMetadata', 'RealizationIndex')), tuple(extra))


def h5_arrays(model):
    out = {}
    path = model.h5_file_name(file_must_exist = False)
    import os
    if path and os.path.exists(path):
        model.h5_release()
        with h5py.File(path, 'r') as f:
            f.visititems(lambda n, o: out.__setitem__(n.strip('/'), (o.shape, o.dtype.str, o[()].tobytes())) if isinstance(o, h5py.Dataset) else None)
    return out


def paths_in(xml):
    out = set()

    def walk(x):
        if Z.local(x[0]) == 'PathInHdfFile':
            out.add(x[2].strip('/'))
        for k in x[3]:
            walk(k)

    walk(xml)
    return out


def compare_copy(new, src, what, cons, tstate, sstate, realization, forced = None):
    """The xml of a copied part against the source: equal but for hdf5 identity, redirected references, realization."""
    t_by = {d['uuid']: n for n, d in tstate.items()}
    s_by = {d['uuid']: n for n, d in sstate.items()}
    redirected = []

    def kids_of(x):
        return [k for k in x[3] if Z.local(k[0]) != 'RealizationIndex'] if realization is not None else list(x[3])

    def walk(a, b, path):
        here = path + '/' + Z.local(b[0])
        if a[0] != b[0] or a[1] != b[1]:
            fail(f'{what}: xml differs at {here}: {a[:2]} v {b[:2]}')
        ka, kb = kids_of(a), kids_of(b)
        names = [Z.local(k[0]) for k in kb]
        if [Z.local(k[0]) for k in ka] != names:
            fail(f'{what}: children differ at {here}: {[Z.local(k[0]) for k in ka]}, in source {names}')
        is_ref = 'ContentType' in names and 'UUID' in names
        for x, y in zip(ka, kb):
            n = Z.local(y[0])
            if is_ref and n in ('UUID', 'Title'):
                ext = 'EpcExternal' in kb[names.index('ContentType')][2]
                if n == 'UUID' and x[2].lower() != y[2].lower():
                    if ext:
                        continue
                    ok(cons, f'{what}: reference redirected without consolidation at {here}')
                    ok(x[2].lower() in t_by, f'{what}: reference redirected to an absent part at {here}', x[2])
                    redirected.append((x[2].lower(), y[2].lower()))
                continue
            walk(x, y, here)
        if not is_ref and a[2] != b[2]:
            fail(f'{what}: text differs at {here}: {a[2]!r}, in source {b[2]!r}')

    walk(new['xml'], src['xml'], '')
    eq((new['type'], new['uuid'], new['title']), (src['type'], src['uuid'], src['title']), what + ': type, uuid, title')
    for tu, su in redirected:
        tp, sp = t_by[tu], s_by[su]
        if forced is not None and forced(tp, sp):
            continue
        title = tstate[tp]['type'] not in UNTITLED
        eq(content(tstate, tp, title = title), content(sstate, sp, title = title), f'{what}: part to which a reference has been redirected')
    return redirected


def closure(state, parts):
    by_uuid = {d['uuid']: n for n, d in state.items()}
    out, todo = set(), list(parts)
    while todo:
        p = todo.pop()
        if p in out:
            continue
        out.add(p)
        todo += [by_uuid[u] for u in state[p]['refs'] if u in by_uuid]
    return out


def objects_only(state):
    return {n: d for n, d in state.items() if 'EpcExternal' not in n}


def realization_of(d):
    for k in d['xml'][3]:
        if Z.local(k[0]) == 'RealizationIndex':
            return k[2]
