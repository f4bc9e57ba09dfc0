"""Random source and target models (sharing equivalent and identical parts) and random sequences of copies, with closure, content, array and non-interference checked against independent readings of both models.

After every copy: the source is unchanged; earlier parts of the target are unchanged; each new part equals the source part in uuid, type, xml and arrays, but for the hdf5 file identity and, with consolidation, references redirected to a resident part of equal content; nothing outside the reference closure of what was asked for has come across; no reference in the target is dangling; doing the copy again changes nothing. At the end the target is stored and reopened."""
import resqpy.model as rq

from pbt.core import *
from pbt.lib import zoo as Z
from pbt.lib.hist import *
from pbt.lib.copying import *

KINDS = st.one_of(st.sampled_from(Z.CHEAP), st.sampled_from(sorted(Z.KINDS)))
ADD = st.fixed_dictionaries(dict(kind = KINDS, k = st.integers(0, 5), title = st.one_of(st.none(), st.none(), Z.TITLES), extra = st.one_of(st.just({}), st.just({}), Z.EXTRA)))
COPY = st.fixed_dictionaries(dict(src = st.integers(0, 2), what = st.one_of(st.just('all'), K), cons = st.sampled_from([True, True, False]), by_uuid = st.booleans(), real = st.sampled_from([None, None, None, 0, 7])))
SPEC = st.fixed_dictionaries(dict(target = st.lists(ADD, max_size = 4), sources = st.lists(st.lists(ADD, min_size = 1, max_size = 4), min_size = 1, max_size = 2), soft = st.lists(st.tuples(st.integers(0, 2), K, K), max_size = 2),
                                  clone = st.booleans(), mirror = st.booleans(), copies = st.lists(COPY, min_size = 1, max_size = 4)))


@check('copies', SPEC, quick = 1000, thorough = 20000, shards = 6, rule = 'some copy brings across two or more parts, or redirects a reference, or finds a part already present')
def copies(spec, ctx):
    tgt = ctx.new_model('target.epc')
    zt = Z.Zoo(tgt)
    for o in spec['target']:
        zt.add(o['kind'], o['k'], o['title'], o['extra'])
    tgt.store_epc(quiet = True)
    tgt.h5_release()
    sources = []
    for i, adds in enumerate(spec['sources']):
        m = ctx.new_model(f'source_{i}.epc')
        z = Z.Zoo(m)
        for o in (spec['target'] if spec['mirror'] else []) + adds:
            z.add(o['kind'], o['k'], o['title'], o['extra'])
        us = sorted((str(u).lower() for u in m.uuids()), key = lambda u: (list(z.by_uuid).index(u) if u in z.by_uuid else 999))
        for s, a, b in spec['soft']:
            if s == i and us[a % len(us)] != us[b % len(us)]:
                m.create_reciprocal_relationship_uuids(Z._uuid(us[a % len(us)]), 'sourceObject', Z._uuid(us[b % len(us)]), 'destinationObject')
        m.store_epc(quiet = True)
        m.h5_release()
        sources.append((m, us))
    if spec['clone']:  # a further source holding the very parts of the first target state, plus more
        m = ctx.track(rq.Model(epc_file = ctx.path('clone.epc'), copy_from = tgt.epc_file, quiet = True))
        z = Z.Zoo(m)
        z.add('surface_of_horizon', 1)
        m.store_epc(quiet = True)
        m.h5_release()
        sources.append((m, [str(u).lower() for u in m.uuids()]))
        ctx.label('clone source')
    state = Z.mem_state(tgt)

    for ci, c in enumerate(spec['copies']):
        src, us = sources[c['src'] % len(sources)]
        sbefore, srel, sh5 = Z.mem_state(src), relations(src), h5_arrays(src)
        before, trel, th5 = state, relations(tgt), h5_arrays(tgt)
        what = f'copy {ci} ({c["what"]}, consolidate {c["cons"]})'
        cons, real = c['cons'], c['real']
        if c['what'] == 'all':
            wanted = list(objects_only(sbefore))

            def act():
                tgt.copy_all_parts_from_other_model(src, consolidate = cons, realization = real)
        else:
            u = us[c['what'] % len(us)]
            part = src.part_for_uuid(Z._uuid(u))
            wanted = [part]

            def act():
                if c['by_uuid']:
                    r = tgt.copy_uuid_from_other_model(src, Z._uuid(u), consolidate = cons, realization = real)
                    return tgt.part_for_uuid(r)
                return tgt.copy_part_from_other_model(src, part, consolidate = cons, realization = real)
        got = act()
        tgt.h5_release()
        src.h5_release()
        state = Z.mem_state(tgt)
        diff_states(Z.mem_state(src), sbefore, what + ': source model')
        diff_relations(relations(src), srel, what + ': source model')
        eq(h5_arrays(src), sh5, what + ': arrays of source model')
        for n in before:
            ok(n in state, what + ': earlier part of target has gone', n)
        diff_states({n: state[n] for n in before}, before, what + ': earlier part of target')
        t_h5 = h5_arrays(tgt)
        for n, a in th5.items():
            eq(t_h5.get(n), a, what + ': earlier array of target ' + n)
        new = set(objects_only(state)) - set(before)
        allowed = closure(sbefore, wanted)
        ok(new <= allowed, what + ': parts copied which were not asked for nor referred to', sorted(new - allowed)[:3])
        t_by = {d['uuid']: n for n, d in state.items()}
        for n, d in objects_only(state).items():
            for u2 in d['refs']:
                ok(u2 in t_by, what + ': reference to a missing part', n, u2)
        n_redirected = 0
        for n in new:
            red = compare_copy(state[n], sbefore[n], f'{what}: {n}', cons, state, sbefore, real)
            n_redirected += len(red)
            if real is not None and state[n]['type'].endswith('Property'):
                eq(realization_of(state[n]), str(real), f'{what}: realization of {n}')
            elif real is not None:
                eq(realization_of(state[n]), realization_of(sbefore[n]), f'{what}: realization of {n}')
            for p in paths_in(sbefore[n]['xml']):
                ok(p in t_h5, what + ': array not copied', n, p)
                eq(t_h5[p], sh5[p], what + ': array copied')
            if cons and state[n]['type'][4:] in CONS:
                for n2, d2 in before.items():
                    if d2['type'] == state[n]['type'] and content(before, n2) == content(sbefore, n):
                        fail(f'{what}: part added although an equivalent one was there: {n} {n2}')
        for w in wanted:
            if w in state:
                continue
            ok(cons, what + ': part asked for is not in the target', w)
            title = sbefore[w]['type'] not in UNTITLED
            cw = content(sbefore, w, title = title)
            ok(any(d2['type'] == sbefore[w]['type'] and content(state, n2, title = title) == cw for n2, d2 in state.items()), what + ': part asked for is neither in the target nor has an equivalent there', w)
        if c['what'] != 'all':
            ok(got in state, what + ': returned part is not in the target', got)
            if not cons or wanted[0] in state:
                eq(got, wanted[0], what + ': returned part')
            else:
                title = sbefore[wanted[0]]['type'] not in UNTITLED
                eq(content(state, got, title = title), content(sbefore, wanted[0], title = title), what + ': returned equivalent part')
        if len(new) >= 2 or n_redirected or any(w in before for w in wanted):
            ctx.nontrivial()
        ctx.label('all' if c['what'] == 'all' else 'one', 'consolidate' if cons else 'plain', 'redirected' if n_redirected else 'not redirected')
        # relationships: references and soft ones between parts which both came from the source
        rel = relations(tgt)
        for n, d in objects_only(state).items():
            eq(rel[d['uuid']][0], d['refs'] - {d['uuid']}, f'{what}: uuids referenced by {n}')
            eq(rel[d['uuid']][1], {e['uuid'] for e in objects_only(state).values() if d['uuid'] in e['refs']} - {d['uuid']}, f'{what}: uuids referencing {n}')
            for v in rel[d['uuid']][2]:
                ok(v not in rel[d['uuid']][0] | rel[d['uuid']][1], f'{what}: soft relation duplicates a reference')
                ok(d['uuid'] in rel[v][2], f'{what}: soft relation is not symmetric')
        came = {state[n]['uuid'] for n in new}
        for a in came:
            for b in srel[a][2]:
                if b in t_by:
                    ok(b in rel[a][0] | rel[a][1] | rel[a][2], f'{what}: soft relationship of copied part is lost', a, b)
        # again: nothing is added
        act()
        tgt.h5_release()
        src.h5_release()
        diff_states(Z.mem_state(tgt), state, what + ' repeated')
        eq(h5_arrays(tgt), t_h5, what + ' repeated: arrays')

    rel = relations(tgt)
    t2 = ctx.reopen(tgt)
    stored, problems = Z.read_epc(t2.epc_file)
    ok(not problems, 'stored target', problems)
    diff_states(stored, state, 'stored target')
    diff_states(Z.mem_state(t2), state, 'reopened target')
    diff_relations(relations(t2), rel, 'reopened target')


