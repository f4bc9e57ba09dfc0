"""Stateful generation of part histories (add, copy, remove, relate, store, reopen over about fifty kinds of object) with an independent zip + lxml reading of the stored file as the oracle.

Each case builds a model by a generated history with generated titles and extra metadata (xml-special and non-ascii text included). The state shown by the public queries before storing is compared with an independent parse of the epc file, with the state after opening (fully, on demand, as a copy under a new name) and after query-only and re-store cycles. Titles and extra metadata must be the ones given. Relationship queries are compared for full loading only: on-demand loading is documented to load just the list of parts."""
import os, shutil

from pbt.core import *
from pbt.lib import zoo as Z
from pbt.lib.hist import *

import h5py

import resqpy.model as rq

OPS = st.lists(st.one_of(op_add(), op_add(), op_add(), op_add(), op('copy', k = K), op('remove', k = K), op('relate', k = K, j = K), op('source', k = K, text = Z.XML_TEXT), op('store'), op('reopen')), min_size = 1, max_size = 9)
CYCLE = st.fixed_dictionaries(dict(full = st.booleans(), how = st.sampled_from(['same', 'same', 'newname', 'copy', 'context']), query = st.lists(st.integers(0, 9), max_size = 4), store = st.booleans(), only_if = st.booleans()))


def check_titles(h, model, what):
    for u, (kind, title, extra) in h.expected.items():
        uu = Z._uuid(u)
        if title is not None:
            eq(model.title(uuid = uu), title, f'{what}: title of {kind}')
        got = extra_of(model, uu)
        if any(got.get(a) != b for a, b in extra.items()):
            fail(f'{what}: extra metadata of {kind}: got {got}, expected {extra}')


    for u, text in h.sources.items():
        eq(model.source_for_part(model.part_for_uuid(Z._uuid(u))), text, f'{what}: source of part')


def extra_of(model, uu):
    """Extra metadata straight from the xml tree."""
    out = {}
    root = model.root_for_uuid(uu)
    for e in root:
        if Z.local(e.tag) == 'ExtraMetadata':
            d = {Z.local(c.tag): c.text for c in e}
            out[d['Name']] = d['Value']
    return out


def run_queries(model, qs):
    us = model.uuids()
    for q in qs:
        if q == 0:
            model.titles()
        elif q == 1:
            model.parts(sort_by = 'newest')
        elif q == 2:
            model.parts_count_by_type()
        elif q == 3 and us:
            model.parts(related_uuid = us[0])
        elif q == 4:
            model.roots()
        elif q == 5:
            for c in model.iter_crs():
                pass
        elif q == 6 and us:
            model.part(title = 'no such title')
            model.citation_title_for_part(model.part(uuid = us[-1]))
        elif q == 7:
            model.parts(metadata = {'Citation': 'x'})
        elif q == 8:
            model.parts(extra = {'a': 'b'})
        elif q == 9 and us:
            model.source_for_part(model.part(uuid = us[0]))


def internal_rels(state):
    return {n: sorted({r for r in d['rels'] if r[0] != 'externalResource'}) if d['rels'] is not None else None for n, d in state.items()}


def h5_state(path):
    out = {}
    if os.path.exists(path):
        with h5py.File(path, 'r') as f:
            f.visititems(lambda n, o: out.__setitem__(n, (o.shape, o.dtype.str, o[()].tobytes())) if isinstance(o, h5py.Dataset) else None)
    return out


@check('store_reopen', st.fixed_dictionaries(dict(ops = OPS, cycles = st.lists(CYCLE, min_size = 1, max_size = 3))), quick = 1500, thorough = 40000, shards = 6,
       rule = 'the model holds at least three object parts, with one or more references between them or odd text, when stored')
def store_reopen(spec, ctx):
    h = History(ctx)
    for o in spec['ops']:
        h.apply(o)
        ctx.label('op ' + o['op'])
        if o['op'] == 'add':
            ctx.label('kind ' + o['kind'])
    m = h.model
    m.store_epc(quiet = True)
    base = h.state()
    ext = bool(spec.get('_known'))
    rel = relations(m, ext)
    rels_expected = {frozenset(s) for s in h.soft}
    check_titles(h, m, 'before storing')
    for s in h.soft:
        a, b = sorted(s)
        ok(b in rel[a][0] | rel[a][1] | rel[a][2] and a in rel[b][0] | rel[b][1] | rel[b][2], 'relationship made between two parts is not reported', (a, b))
    n_ref = sum(len(s['refs']) for s in base.values())
    odd = any(e[1] and not e[1].isalnum() for e in h.expected.values())
    ctx.nontrivial(len(h.objects()) >= 3 and (n_ref > 0 or odd))
    file_state, problems = Z.read_epc(m.epc_file)
    ok(not problems, 'stored file is inconsistent', problems)
    diff_states(file_state, base, 'stored file')
    for part in base:
        r = file_state[part]['rels']
        u = base[part]['uuid']
        if r is not None and u not in h.copies and 'EpcExternal' not in part:
            for typ, target in r:
                ok(target in base, 'relationship target is not a part of the stored file', (part, target))
    rels0 = internal_rels(file_state)
    for u in h.removed:
        ok(u[1] not in file_state, 'removed part is in the stored file', u)
    path = m.epc_file
    h5_0 = h5_state(path[:-4] + '.h5')
    m.h5_release()

    for i, c in enumerate(spec['cycles']):
        what = f'cycle {i} ({c["how"]}, {"full" if c["full"] else "on demand"} loading)'
        ctx.label(c['how'], 'full' if c['full'] else 'on demand')
        kw = dict(full_load = c['full'])
        if c['how'] == 'copy':
            new = ctx.path(f'copy_{i}.epc')
            m2 = ctx.track(rq.Model(epc_file = new, copy_from = path, quiet = True, **kw))
            eq(h5_state(new[:-4] + '.h5'), h5_0, what + ': arrays of the copy')
            eq(os.path.basename(m2.epc_file), f'copy_{i}.epc', what + ': name')
        elif c['how'] == 'context':
            with rq.ModelContext(path, mode = 'read') as m2:
                diff_states(Z.mem_state(m2), base, what)
                diff_relations(relations(m2, ext), rel, what)
                run_queries(m2, c['query'])
            st2, problems = Z.read_epc(path)
            ok(not problems, what + ': file', problems)
            diff_states(st2, base, what + ': file after read only context')
            continue
        else:
            m2 = ctx.open_model(path, **kw)
        if c['how'] == 'copy' or i % 2:
            run_queries(m2, c['query'])
        state2 = Z.mem_state(m2)
        diff_states(state2, base, what)
        check_titles(h, m2, what)
        if c['full']:
            diff_relations(relations(m2, ext), rel, what)
        run_queries(m2, c['query'])
        if c['store'] or c['how'] in ('newname', 'copy'):
            if c['how'] == 'newname':
                new = ctx.path(f'new_{i}.epc')
                m2.store_epc(new, quiet = True)
                ok(os.path.exists(new), what + ': file not written')
                shutil.copy(path[:-4] + '.h5', new[:-4] + '.h5')
            else:
                new = m2.epc_file
                m2.store_epc(quiet = True, only_if_modified = c['only_if'])
            st2, problems = Z.read_epc(new)
            ok(not problems, what + ': re-stored file', problems)
            diff_states(st2, base, what + ': re-stored file')
            eq(internal_rels(st2), rels0, what + ': relationship parts of the re-stored file')
            diff_states(Z.mem_state(m2), base, what + ': model after re-storing')
            path = new
        m2.h5_release()
        if c['how'] == 'copy':
            for override in ('default', 'none', 'full', 'dir'):
                m2.h5_clear_filename_cache()
                if override == 'none':
                    os.chdir(ctx.tmp)
                eq(os.path.realpath(m2.h5_file_name(override = override)), os.path.realpath(path[:-4] + '.h5'), what + ': hdf5 file of the copy')


