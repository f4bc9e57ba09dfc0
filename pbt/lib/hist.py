"""Histories of operations on a model: generator, interpreter and state snapshots shared by the model property checks."""
import os, uuid as _uuidlib

from hypothesis import strategies as st

from pbt.core import *
from pbt.lib import zoo as Z

KIND = st.one_of(st.sampled_from(Z.CHEAP), st.sampled_from(sorted(Z.KINDS)))


def op_add(kinds = KIND):
    return st.fixed_dictionaries(dict(op = st.just('add'), kind = kinds, k = st.integers(0, 40), title = st.one_of(st.none(), Z.TITLES), extra = st.one_of(st.just({}), Z.EXTRA)))


def op(name, **kw):
    return st.fixed_dictionaries(dict(op = st.just(name), **kw))


K = st.integers(0, 200)


def uuid_str(i):
    return str(_uuidlib.UUID(int = i))


def relations(model, ext = False):
    """uuid str -> (set referenced, set referencing, set soft) from the public relationship queries, for every object part.

    The hdf5 external part (not an object) is left out unless ext is True."""
    out = {}
    skip = set() if ext else {str(model.uuid_for_part(p)).lower() for p in model.external_parts_list()}
    for u in [str(x).lower() for x in model.uuids()]:
        sets = []
        for f in (model.uuids_as_int_referenced_by_uuid, model.uuids_as_int_referencing_uuid, model.uuids_as_int_softly_related_to_uuid):
            s = f(Z._uuid(u))
            sets.append({uuid_str(i) for i in (s or set())} - skip)
        out[u] = tuple(sets)
    return out


def diff_states(a, b, what, keys = ('type', 'uuid', 'title', 'xml', 'refs')):
    """Fails unless the two states (dicts by part name) agree; a is the state found, b the state expected."""
    if set(a) != set(b):
        fail(f'{what}: parts missing {sorted(set(b) - set(a))[:4]}, parts extra {sorted(set(a) - set(b))[:4]}')
    for n in b:
        for key in keys:
            if key == 'xml' and a[n][key] != b[n][key]:
                fail(f'{what}: xml of part {n} differs at {Z.xml_diff(a[n][key], b[n][key])}')
            if a[n][key] != b[n][key]:
                fail(f'{what}: {key} of part {n} differs: got {str(a[n][key])[:400]}, expected {str(b[n][key])[:400]}')


def diff_relations(a, b, what):
    if set(a) != set(b):
        fail(f'{what}: uuids missing {sorted(set(b) - set(a))[:4]}, extra {sorted(set(a) - set(b))[:4]}')
    for u in b:
        for i, name in enumerate(('referenced by', 'referencing', 'softly related to')):
            if a[u][i] != b[u][i]:
                fail(f'{what}: uuids {name} {u}: got {sorted(a[u][i])}, expected {sorted(b[u][i])}')


class History:
    """Interprets operations on one model, tracking what should be there."""

    def __init__(self, ctx, name = 'm.epc', relate = True):
        self.ctx = ctx
        self.model = ctx.new_model(name)
        self.zoo = Z.Zoo(self.model)
        self.soft = set()     # frozensets of two uuid strs, requested soft relationships
        self.sources = {}     # uuid -> source text set
        self.copies = set()   # uuids made by copy_part
        self.removed = []     # (uuid, part name)
        self.expected = {}    # uuid str -> (title, extra) as requested
        self.version = 0

    def objects(self):
        return [str(u).lower() for u in self.model.uuids()]

    def state(self):
        return Z.mem_state(self.model)

    def swap_model(self, model):
        self.model = model
        self.zoo.model = model

    def _pick(self, k, options):
        return options[k % len(options)] if options else None

    def apply(self, o):
        name = o['op']
        m = self.model
        if name == 'add':
            u = self.zoo.add(o['kind'], o['k'], o['title'], o['extra'])
            self.expected[u] = (o['kind'], o['title'], o['extra'])
            self.removed = [r for r in self.removed if r[0] != u]
            return u
        objs = sorted(self.objects(), key = lambda u: (m.type_of_uuid(Z._uuid(u)), self.order(u)))
        if name == 'copy':
            src = self._pick(o['k'], objs)
            if src is None:
                return None
            new = str(_uuidlib.UUID(int = (o['k'] + 1) * 7919 + self.version * 104729 + (0x1234 << 100) | (1 << 127)))
            self.version += 1
            m.copy_part(Z._uuid(src), Z._uuid(new))
            self.copies.add(new)
            if src in self.sources:
                self.sources[new] = self.sources[src]
            return new
        if name == 'remove':
            refs = self.refs()
            options = objs if o.get('any') else [u for u in objs if not any(u in r for v, r in refs.items())]
            u = self._pick(o['k'], options)
            if u is None:
                return None
            gone = {u}
            while True:  # objects which can no longer be used by later steps, as something they refer to has gone
                more = {v for v, r in refs.items() if v not in gone and r & gone}
                if not more:
                    break
                gone |= more
            for v in gone:
                self.zoo.forget(v)
            part = m.part_for_uuid(Z._uuid(u))
            m.remove_part(part, remove_relationship_part = True)
            self.removed.append((u, part))
            self.expected.pop(u, None)
            self.sources.pop(u, None)
            self.copies.discard(u)
            self.soft = {s for s in self.soft if u not in s}
            return u
        if name == 'relate':
            can = [u for u in objs if u not in self.copies]
            if len(can) < 2:
                return None
            a, b = self._pick(o['k'], can), self._pick(o['j'], can)
            if a == b:
                return None
            m.create_reciprocal_relationship_uuids(Z._uuid(a), 'sourceObject', Z._uuid(b), 'destinationObject', avoid_duplicates = not o.get('dup'))
            self.soft.add(frozenset((a, b)))
            return a
        if name == 'source':
            u = self._pick(o['k'], objs)
            if u is None:
                return None
            m.set_source_for_part(m.part_for_uuid(Z._uuid(u)), o['text'])
            self.sources[u] = o['text']
            eq(m.source_for_part(m.part_for_uuid(Z._uuid(u))), o['text'], 'source just set')
            if u in self.expected and 'source' in self.expected[u][2]:
                e = self.expected[u]
                self.expected[u] = (e[0], e[1], dict(e[2], source = o['text']))
            return u
        if name == 'resupport':
            props = [u for u in objs if u in self.zoo.by_uuid and m.type_of_uuid(Z._uuid(u)).endswith('Property')]
            u = self._pick(o['k'], props)
            grids = self.zoo.pool.get('regular_grid', [])
            if u is None or not grids:
                return None
            old = m.supporting_representation_for_part(m.part_for_uuid(Z._uuid(u)))
            m.change_uuid_in_supporting_representation_reference(m.root_for_uuid(Z._uuid(u)), old, Z._uuid(grids[o['j'] % len(grids)]))
            return u
        if name == 'store':
            m.store_epc(quiet = True)
            return None
        if name == 'reopen':
            m2 = self.ctx.reopen(m, full_load = True)
            self.swap_model(m2)
            return None
        raise AssertionError(name)

    def order(self, u):
        return list(self.zoo.by_uuid).index(u) if u in self.zoo.by_uuid else 10 ** 6

    def refs(self):
        """uuid -> set of uuids referred to, straight from the xml trees."""
        out = {}
        for u in self.objects():
            root = self.model.root_for_uuid(Z._uuid(u))
            out[u] = Z.refs_of(root)
        return out
