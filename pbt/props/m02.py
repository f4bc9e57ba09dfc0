"""Stateful generation of add / relate / copy / re-support / remove / store / reopen histories, with a reference model of the catalogue and the reference graph checked after every step.

The reference graph is computed independently from the xml trees of the parts; the catalogue queries (parts, uuids, roots, titles, types, counts) and the relationship queries (three modes, all, by type, graph) must agree with it, and soft relationships with those requested and those held in the stored relationship parts. Removal of any part (referenced or not) must leave every other part as it was."""
from pbt.core import *
from pbt.lib import zoo as Z
from pbt.lib.hist import *

OPS = st.lists(st.one_of(op_add(), op_add(), op_add(), op('copy', k = K), op('remove', k = K, any = st.booleans()), op('relate', k = K, j = K, dup = st.booleans()),
                         op('relate', k = K, j = K, dup = st.booleans()), op('resupport', k = K, j = K), op('store'), op('reopen')), min_size = 2, max_size = 12)


def catalogue(model, refs, what):
    """The part / uuid / type maps are one to one and complete."""
    parts = model.parts()
    uuids = [str(u).lower() for u in model.uuids()]
    eq(len(set(parts)), len(parts), what + ': parts listed twice')
    eq(len(set(uuids)), len(uuids), what + ': uuids listed twice')
    eq(len(parts), len(uuids), what + ': numbers of parts and uuids')
    eq(model.list_of_parts(), parts, what + ': list_of_parts')
    roots, titles = model.roots(), model.titles()
    eq((len(roots), len(titles)), (len(parts), len(parts)), what + ': numbers of roots and titles')
    types = {}
    for p, u, r, t in zip(parts, uuids, roots, titles):
        uu = Z._uuid(u)
        eq(r.get('uuid').lower(), u, what + ': uuid in xml')
        eq(model.part_for_uuid(uu), p, what + ': part for uuid')
        eq(str(model.uuid_for_part(p)).lower(), u, what + ': uuid for part')
        ok(model.root_for_uuid(uu) is r and model.root_for_part(p) is r, what + ': root for uuid')
        ok(model.uuid_is_present(uu), what + ': uuid is not present', u)
        eq(model.part(uuid = uu), p, what + ': part(uuid)')
        eq(str(model.uuid(uuid = uu)).lower(), u, what + ': uuid(uuid)')
        typ = 'obj_' + Z.local(r.tag)
        eq(model.type_of_part(p), typ, what + ': type of part')
        eq(model.type_of_uuid(uu), typ, what + ': type of uuid')
        eq(model.type_of_uuid(uu, strip_obj = True), typ[4:], what + ': stripped type of uuid')
        ok(u in p.lower() and typ in p, what + ': part name', p)
        types.setdefault(typ, []).append(p)
        eq(t, model.citation_title_for_part(p), what + ': title')
    for typ, ps in types.items():
        eq(sorted(model.parts_list_of_type(typ)), sorted(ps), what + ': parts of type ' + typ)
        eq(sorted(model.parts(obj_type = typ[4:])), sorted(ps), what + ': parts with obj_type ' + typ)
        eq(model.parts_count_by_type(typ[4:]), [(typ[4:], len(ps))], what + ': count for type')
    counts = dict(model.parts_count_by_type())
    counts.pop('EpcExternalPartReference', None)
    eq(counts, {t[4:]: len(ps) for t, ps in types.items()}, what + ': counts by type')
    eq(model.number_of_parts(), len(parts) + len(model.external_parts_list()), what + ': number of parts')
    eq(set(uuids), set(refs), what + ': uuids')


def graph(model, refs, what):
    """Relationship queries agree with the references held in the parts and with each other. Returns relations."""
    rel = relations(model)
    present = set(refs)
    inverse = {u: set() for u in present}
    for u, rs in refs.items():
        for v in rs & present:
            inverse[v].add(u)
    parts = {u: model.part_for_uuid(Z._uuid(u)) for u in present}
    order = model.parts()
    for u in present:
        a, b, c = rel[u]
        eq(a & present, refs[u] & present - {u}, f'{what}: uuids referenced by {parts[u]}')
        eq(b & present, inverse[u] - {u}, f'{what}: uuids referencing {parts[u]}')
        ok(not c & (a | b), f'{what}: soft relation duplicates a reference', u)
        ok(c <= present, f'{what}: soft relation with an absent part', u, c)
        for v in c:
            ok(u in rel[v][2], f'{what}: soft relation is not symmetric', u, v)
        ok(u not in a | b | c, f'{what}: part is related to itself', u)
        for mode, s in ((0, a), (1, b), (2, c), (None, a | b | c)):
            expect = [p for p in order if str(model.uuid_for_part(p)).lower() in s]
            eq(model.parts(related_uuid = Z._uuid(u), related_mode = mode), expect, f'{what}: parts related to {parts[u]} in mode {mode}')
            eq(model.parts_list_filtered_by_related_uuid(order, Z._uuid(u), related_mode = mode), expect, f'{what}: filtered parts related to {parts[u]} in mode {mode}')
        every = a | b | c
        ints = {uuid_str(i) for i in (model.uuids_as_int_related_to_uuid(Z._uuid(u)) or set())}
        eq(ints & present, every & present, f'{what}: all related')
        for t in {model.type_of_uuid(Z._uuid(v)) for v in every & present}:
            eq(sorted(model.parts_list_related_to_uuid_of_type(Z._uuid(u), t)), sorted(parts[v] for v in every & present if model.type_of_uuid(Z._uuid(v)) == t), f'{what}: related of type {t}')
    nodes, edges = model.as_graph()
    eq({n.lower() for n in nodes}, present, what + ': nodes of graph')
    eq({frozenset(x.lower() for x in e) for e in edges}, {frozenset((u, v)) for u in present for v in (rel[u][0] | rel[u][1] | rel[u][2]) & present}, what + ': edges of graph')
    return rel


def gone(model, uuid, part, what, dangling):
    """A removed part is found by no query."""
    uu = Z._uuid(uuid)
    ok(model.part_for_uuid(uu) is None and not model.uuid_is_present(uu) and model.part(uuid = uu) is None and model.root(uuid = uu) is None, what + ': removed part is still found by uuid')
    ok(part not in model.parts() and part not in model.list_of_parts(only_objects = False), what + ': removed part is still listed')
    ok(dangling or not model.parts(related_uuid = uu), what + ': parts are still related to the removed part')
    ok(model.type_of_part(part) is None, what + ': removed part still has a type')
    ok(not model.parts_list_of_type(uuid = uu), what + ': removed part still listed by type')


@check('histories', OPS, quick = 1600, thorough = 40000, shards = 6, rule = 'a history with at least one removal, copy, soft relation or reopening applied to a model holding at least three object parts with a reference between two of them')
def histories(spec, ctx):
    h = History(ctx)
    dangling = False
    for i, o in enumerate(spec):
        before = h.state()
        rel_before = relations(h.model)
        n_ref = sum(len(d['refs']) for d in before.values())
        u = h.apply(o)
        what = f'after step {i} ({o["op"]})'
        m = h.model
        refs = h.refs()
        catalogue(m, refs, what)
        rel = graph(m, refs, what)
        after = h.state()
        if u is not None or o['op'] in ('store', 'reopen'):
            ctx.label('op ' + o['op'])
        if len(before) > 3 and n_ref and o['op'] in ('remove', 'copy', 'relate', 'reopen') and (u is not None or o['op'] == 'reopen'):
            ctx.nontrivial()
        # requested soft relationships are reported (as soft unless there is also a reference)
        for s in h.soft:
            a, b = sorted(s)
            ok(b in rel[a][0] | rel[a][1] | rel[a][2], what + ': requested relationship is not reported', a, b)
        # parts other than the one worked on are as they were
        if o['op'] == 'remove' and u is not None:
            part = h.removed[-1][1]
            expect = {n: d for n, d in before.items() if n != part}
            diff_states(after, expect, what)
            for v in rel:
                for mode in (0, 1, 2):
                    eq(rel[v][mode], rel_before[v][mode] - {u}, f'{what}: relations of another part in mode {mode}')
            if any(u in r for r in refs.values()):
                dangling = True
                ctx.label('referenced part removed')
        elif o['op'] in ('store', 'reopen'):
            diff_states(after, before, what)
            if not dangling:
                diff_relations(rel, rel_before, what)
            else:
                keep = set(rel)
                diff_relations({v: tuple(x & keep for x in r) for v, r in rel.items()}, {v: tuple(x & keep for x in r) for v, r in rel_before.items()}, what)
        else:
            same = {n: after.get(n) for n in before if not (o['op'] == 'resupport' and before[n]['uuid'] == u)}
            for n in same:
                ok(same[n] is not None, what + ': part is no longer present', n)
            diff_states(same, {n: before[n] for n in same}, what)
        for ru, part in h.removed:
            if ru not in refs:
                gone(m, ru, part, what, any(ru in r for r in refs.values()))
        if o['op'] == 'copy' and u is not None:
            src = [n for n, d in after.items() if d['uuid'] == u][0]
            ok(after[src]['refs'] in [d['refs'] for d in before.values()], what + ': references of the copy')
        if o['op'] == 'store':
            st_, problems = Z.read_epc(m.epc_file)
            ok(not problems, what + ': stored file', problems)
            for n, d in st_.items():
                if d['rels'] is None:
                    continue
                for typ, target in d['rels']:
                    if typ != 'externalResource':
                        ok(target in st_, what + ': stored relationship with an absent part', n, target)
                        if st_[target]['rels'] is not None:
                            ok(any(x[1] == n for x in st_[target]['rels']), what + ': stored relationship is one way', n, target)
                soft = {st_[t]['uuid'] for typ, t in d['rels'] if t in st_ and 'EpcExternal' not in t}
                if 'EpcExternal' not in n:
                    v = d['uuid']
                    eq(rel[v][2], soft - rel[v][0] - rel[v][1], what + ': soft relations against the stored relationship part')


