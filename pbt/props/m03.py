"""Random models and random combinations of filter arguments, against a direct evaluation of each filter on the part's own xml tree.

A model of generated objects (titles that share prefixes and differ in case, overlapping extra metadata, controlled creation times, soft and hard relationships) is queried with random combinations of every filter; the oracle evaluates each filter from the xml, the reference graph and the given input list. Listings are compared index by index across parts, uuids, roots and titles, sort orders by their keys, and the singular forms with each multiple handling policy."""
from pbt.core import *
from pbt.lib import zoo as Z
from pbt.lib.hist import *

TITLE = st.one_of(st.sampled_from(['Ab', 'ab', 'AB', 'abc', 'ABc', 'cab', 'c', 'b c', 'a.c', 'éa', 'ÉA', 'a*', ' ab', 'ab ', 'a&b<']), st.text('aAbBc ', min_size = 1, max_size = 4).filter(lambda s: s.strip()))
EXKEY = st.sampled_from(['k', 'K', 'rig', 'a b'])
EXVAL = st.sampled_from(['1', '01', 'x', 'X', 'xx', 'x y', 'é&'])
EX = st.dictionaries(EXKEY, EXVAL, max_size = 3)
OBJ = st.fixed_dictionaries(dict(kind = st.sampled_from(Z.CHEAP + ['md_datum', 'regular_grid', 'polyline', 'trajectory']), k = st.integers(0, 20), title = TITLE, extra = EX, t = st.integers(0, 5)))
MODES = ['is', 'starts', 'ends', 'contains', 'is not', 'does not start', 'does not end', 'does not contain']
OPTK = st.one_of(st.none(), st.none(), st.none(), K)
FILTER = st.fixed_dictionaries(dict(inlist = st.one_of(st.none(), st.none(), st.none(), st.lists(K, max_size = 8)), obj_type = OPTK, prefixed = st.booleans(), uuid = st.one_of(st.none(), st.none(), st.none(), st.none(), K),
                                    title = st.one_of(st.none(), TITLE), mode = st.sampled_from(MODES), case = st.booleans(), metadata = OPTK, meta_wrong = st.booleans(), extra = st.one_of(st.none(), st.none(), EX), extra_of = st.one_of(st.none(), K),
                                    rel = OPTK, rel_mode = st.sampled_from([None, 0, 1, 2]), sub = st.sampled_from([None, None, None, None, 'sub', 'sub/', '/sub', 'su']),
                                    sort = st.sampled_from([None, None, 'newest', 'oldest', 'title', 'uuid', 'type']), multi = st.sampled_from(['exception', 'none', 'first', 'oldest', 'newest'])))


def title_of(root):
    for e in root:
        if Z.local(e.tag) == 'Citation':
            for f in e:
                if Z.local(f.tag) == 'Title':
                    return (f.text or '').strip()
    return ''


def created(root):
    for e in root:
        if Z.local(e.tag) == 'Citation':
            for f in e:
                if Z.local(f.tag) == 'Creation':
                    return f


def extra_of(root):
    out = {}
    for e in root:
        if Z.local(e.tag) == 'ExtraMetadata':
            d = {Z.local(c.tag): c.text for c in e}
            out[d['Name']] = d['Value']
    return out


def title_match(t, f):
    a, b = t.strip(), f['title'].strip()
    if not f['case']:
        a, b = a.upper(), b.upper()
    mode = f['mode']
    pos = {'is': a == b, 'is not': a != b, 'starts': a[:len(b)] == b, 'does not start': a[:len(b)] != b, 'ends': a[len(a) - len(b):] == b if len(b) <= len(a) else False,
           'contains': any(a[i:i + len(b)] == b for i in range(len(a) + 1))}
    pos['does not end'] = not pos['ends']
    pos['does not contain'] = not pos['contains']
    return pos[mode]


@check('filters', st.fixed_dictionaries(dict(objs = st.lists(OBJ, min_size = 2, max_size = 7), soft = st.lists(st.tuples(K, K), max_size = 3), reopen = st.sampled_from([False, False, True]), subdir = st.booleans(), queries = st.lists(FILTER, min_size = 4, max_size = 12))),
       quick = 2000, thorough = 60000, shards = 6, rule = 'some query with two or more filters selects at least one part but not all of the parts')
def filters(spec, ctx):
    h = History(ctx)
    m = h.model
    for o in spec['objs']:
        u = h.zoo.add(o['kind'], o['k'], o['title'], o['extra'])
        created(m.root_for_uuid(Z._uuid(u))).text = f'2020-01-0{1 + o["t"]}T00:00:00Z'
    objs = h.objects()
    if spec['subdir']:
        import copy
        import resqpy.olio.uuid as bu
        root = copy.deepcopy(m.root_for_uuid(Z._uuid(objs[0])))
        new = bu.new_uuid()
        root.set('uuid', str(new))
        m.add_part(m.type_of_uuid(Z._uuid(objs[0])), new, root, epc_subdir = 'sub')
    soft = set()
    for a, b in spec['soft']:
        a, b = objs[a % len(objs)], objs[b % len(objs)]
        if a != b:
            m.create_reciprocal_relationship_uuids(Z._uuid(a), 'sourceObject', Z._uuid(b), 'destinationObject')
            soft.add(frozenset((a, b)))
    if spec['reopen']:
        h.apply(dict(op = 'reopen'))
        m = h.model
        ctx.label('reopened')
    order = m.parts()
    info = {}
    for p in order:
        r = m.root_for_part(p)
        info[p] = dict(root = r, uuid = r.get('uuid').lower(), type = 'obj_' + Z.local(r.tag), title = title_of(r), extra = extra_of(r), created = created(r).text, refs = Z.refs_of(r),
                       top = [(Z.local(e.tag), e.text) for e in r if len(e) == 0 and e.text and e.text.strip()])
    by_uuid = {d['uuid']: p for p, d in info.items()}
    eq(len(order), len(objs) + (1 if spec['subdir'] else 0), 'number of parts')

    for name, types, cls in (('iter_crs', ('obj_LocalDepth3dCrs', 'obj_LocalTime3dCrs'), 'Crs'), ('iter_md_datums', ('obj_MdDatum',), 'MdDatum'), ('iter_trajectories', ('obj_WellboreTrajectoryRepresentation',), 'Trajectory'), ('iter_wellbore_interpretations', ('obj_WellboreInterpretation',), 'WellboreInterpretation'),
                             ('iter_grid_connection_sets', ('obj_GridConnectionSetRepresentation',), 'GridConnectionSet')):
        found = list(getattr(m, name)())
        eq(sorted(str(x.uuid).lower() for x in found), sorted(d['uuid'] for d in info.values() if d['type'] in types), f'objects from {name}')
        eq({type(x).__name__ for x in found} - {cls}, set(), f'classes from {name}')
        for x in found:
            eq((x.title or '').strip(), info[by_uuid[str(x.uuid).lower()]]['title'], f'title of object from {name}')

    for q, f in enumerate(spec['queries']):
        kw, sel, n_f = {}, list(order), 0
        if f['inlist'] is not None:
            seen = []
            for i in f['inlist']:
                p = order[i % len(order)]
                if p not in seen:
                    seen.append(p)
            kw['parts_list'] = list(seen)
            sel, n_f = seen, n_f + 1
        given_order = list(sel)
        if f['obj_type'] is not None:
            types = sorted({d['type'] for d in info.values()}) + ['obj_IjkGridRepresentation', 'obj_Feature']
            t = types[f['obj_type'] % len(types)]
            kw['obj_type'] = t if f['prefixed'] else t[4:]
            sel, n_f = [p for p in sel if info[p]['type'] == t], n_f + 1
        if f['uuid'] is not None:
            us = [d['uuid'] for d in info.values()] + ['00000000-0000-1000-8000-00000000000f']
            u = us[f['uuid'] % len(us)]
            kw['uuid'] = Z._uuid(u) if f['case'] else u
            sel, n_f = [p for p in sel if info[p]['uuid'] == u], n_f + 1
        if f['title'] is not None:
            kw.update(title = f['title'], title_mode = f['mode'], title_case_sensitive = f['case'])
            sel, n_f = [p for p in sel if title_match(info[p]['title'], f)], n_f + 1
        if f['metadata'] is not None:
            pool = sorted({kv for d in info.values() for kv in d['top'] if [x[0] for x in d['top']].count(kv[0]) == 1})
            if pool:
                key, val = pool[f['metadata'] % len(pool)]
                if f['meta_wrong']:
                    val = val + 'x'
                kw['metadata'] = {key: val}
                sel, n_f = [p for p in sel if [v for k2, v in info[p]['top'] if k2 == key][:1] == [val]], n_f + 1
        ex = f['extra']
        if ex is None and f['extra_of'] is not None:
            cands = [d['extra'] for d in info.values() if d['extra']]
            if cands:
                ex = cands[f['extra_of'] % len(cands)]
                ex = dict(list(ex.items())[:2])
        if ex:
            kw['extra'] = ex
            sel, n_f = [p for p in sel if all(info[p]['extra'].get(a) == b for a, b in ex.items())], n_f + 1
        if f['rel'] is not None:
            us = [d['uuid'] for d in info.values()]
            u = us[f['rel'] % len(us)]
            kw['related_uuid'] = Z._uuid(u) if f['case'] else u
            kw['related_mode'] = f['rel_mode']
            a = info[by_uuid[u]]['refs']
            b = {d['uuid'] for d in info.values() if u in d['refs']}
            c = {v for s in soft if u in s for v in s if v != u} - a - b
            lib = {uuid_str(i) for i in (m.uuids_as_int_softly_related_to_uuid(Z._uuid(u)) or set())} - a - b
            c |= lib  # soft relationships made by the library itself
            want = {None: a | b | c, 0: a, 1: b, 2: c}[f['rel_mode']]
            sel, n_f = [p for p in sel if info[p]['uuid'] in want], n_f + 1
        if f['sub'] is not None:
            kw['epc_subdir'] = f['sub']
            d = f['sub'].strip('/') + '/'
            sel, n_f = [p for p in sel if p.startswith(d)], n_f + 1
        what = f'query {kw}'
        args = dict(kw)
        if f['sort']:
            args['sort_by'] = f['sort']
        given_copy = list(kw.get('parts_list', []))
        got = m.parts(**args)
        eq(given_copy, list(kw.get('parts_list', [])), 'input list of parts altered')
        eq(sorted(got), sorted(sel), what + ': parts')
        if n_f >= 2 and 0 < len(sel) < len(order):
            ctx.nontrivial()
        ctx.label(f'{n_f} filters', 'none' if not sel else 'one' if len(sel) == 1 else 'several')
        if f['sort'] is None:
            eq(got, [p for p in given_order if p in set(sel)], what + ': order of parts')
        else:
            key = {'newest': 'created', 'oldest': 'created', 'title': 'title', 'uuid': 'uuid', 'type': 'type'}[f['sort']]
            keys = [info[p][key] for p in got]
            eq(keys, sorted(keys, reverse = f['sort'] == 'newest'), f'{what}: sorted by {f["sort"]}')
        uu = [str(x).lower() for x in m.uuids(**args)]
        roots, titles = m.roots(**args), m.titles(**args)
        eq(uu, [info[p]['uuid'] for p in got], what + ': uuids')
        ok(len(roots) == len(got) and all(r is info[p]['root'] for r, p in zip(roots, got)), what + ': roots')
        eq(titles, [info[p]['title'] for p in got], what + ': titles')
        # singular forms
        multi = f['multi']
        if len(sel) == 0:
            expect = [None]
        elif len(sel) == 1:
            expect = sel
        elif multi == 'exception':
            expect = None
        elif multi == 'none':
            expect = [None]
        elif multi == 'first':
            expect = [[p for p in given_order if p in set(sel)][0]]
        else:
            best = (max if multi == 'newest' else min)(info[p]['created'] for p in sel)
            expect = [p for p in sel if info[p]['created'] == best]
        for name, of in (('part', lambda p: p), ('uuid', lambda p: info[p]['uuid']), ('root', lambda p: info[p]['root']), ('title', lambda p: info[p]['title'])):
            fn = getattr(m, name)
            if expect is None:
                ok(raises(lambda: fn(multiple_handling = multi, **kw), ValueError), f'{what}: {name}() with several matches did not raise ValueError')
                if multi == 'exception':
                    ok(raises(lambda: fn(**kw), ValueError), f'{what}: {name}() with several matches did not raise ValueError by default')
                continue
            got1 = fn(multiple_handling = multi, **kw)
            if name == 'uuid' and got1 is not None:
                got1 = str(got1).lower()
            want1 = [None if p is None else of(p) for p in expect]
            ok(any(got1 is w or (not name == 'root' and got1 == w) for w in want1), f'{what}: {name}(multiple_handling = {multi})', got1 if name != 'root' else got1 is None, expect)
