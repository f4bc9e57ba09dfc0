"""Every metadata class with generated combinations of its attributes: stored, reopened and compared attribute by attribute with what was given; then twins, variants differing in one attribute, and reuse are judged against the attributes alone.

A twin (same attributes, other uuid) must be equivalent to the original in both directions, a variant with one defining attribute changed must not be, and create_xml with reuse must find the twin and add nothing but add exactly one part for a variant."""
import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.organize as rqo
import resqpy.strata as rqs
import resqpy.property as rqp
import resqpy.well as rqw
import resqpy.olio.uuid as bu
from resqpy.strata import _strata_common as rqstc

from pbt.core import *
from pbt.lib import zoo as Z
from pbt.lib.gen import *

DOM = st.sampled_from(['depth', 'time', 'mixed'])
T = st.one_of(Z.PLAIN, Z.XML_TEXT)
OT = st.one_of(T, T, st.none())
EX = st.one_of(st.just({}), Z.EXTRA)
IDX = st.integers(0, 1)
HOD = st.one_of(st.none(), st.none(), st.tuples(IDX, IDX)).map(lambda x: list(x) if x else None)
VAL = fl(0, 400, 2)
BREL = ['conformable', 'unconformable below and above', 'unconformable above', 'unconformable below']
CONTACT = st.fixed_dictionaries(dict(rel = st.sampled_from(rqstc.valid_contact_relationships), verb = st.sampled_from(rqstc.valid_contact_verbs), subj = IDX, obj = IDX, ss = opt(st.sampled_from(rqstc.valid_contact_sides)), sm = opt(st.sampled_from(rqstc.valid_contact_modes)),
                                     os_ = opt(st.sampled_from(rqstc.valid_contact_sides)), om = opt(st.sampled_from(rqstc.valid_contact_modes)), part = opt(IDX)))
LOOK = st.one_of(st.dictionaries(st.integers(0, 8), T, min_size = 1, max_size = 6), st.dictionaries(st.integers(-20, 70), T, min_size = 1, max_size = 6), st.dictionaries(st.sampled_from([0, 49, 50, 51, 10**6, -(10**6), 2**31]), T, min_size = 1, max_size = 3),
                 st.tuples(st.integers(0, 3), st.integers(45, 60)).map(lambda t: {i: f's{i % 50}' for i in range(t[0], t[0] + t[1])})).map(lambda d: [[k, v] for k, v in d.items()])


def U(u):
    return None if u is None else str(u).lower()


def feat(o, name):
    f = getattr(o, name)
    return None if f is None else (U(f.uuid), f.resqml_type, f.title)


class World:
    """Model with a pool of two of each thing that may be referred to."""

    def __init__(self, m, first = True):
        self.m = m
        self.ids = {}
        if not first:
            return
        for kind, cls, kw in [('gbf', rqo.GeneticBoundaryFeature, dict(kind = 'horizon')), ('gbb', rqo.GeneticBoundaryFeature, dict(kind = 'geobody boundary')), ('tbf', rqo.TectonicBoundaryFeature, dict(kind = 'fault')),
                              ('bf', rqo.BoundaryFeature, {}), ('wf', rqo.WellboreFeature, {}), ('of', rqo.OrganizationFeature, dict(organization_kind = 'earth model')), ('gf', rqo.GeobodyFeature, {}),
                              ('fb', rqo.FluidBoundaryFeature, dict(kind = 'gas oil contact')), ('guf', rqo.GeologicUnitFeature, {})]:
            self.ids[kind] = []
            for i in range(2):
                o = cls(m, feature_name = f'{kind} {i}', **kw)
                o.create_xml(reuse = False)
                self.ids[kind].append(o.uuid)
        self.ids['suf'], self.ids['sui'], self.ids['hi'], self.ids['crs'], self.ids['rank'] = [], [], [], [], []
        for i in range(2):
            o = rqs.StratigraphicUnitFeature(m, title = f'suf {i}')
            o.create_xml(reuse = False)
            self.ids['suf'].append(o.uuid)
            o = rqs.StratigraphicUnitInterpretation(m, title = f'sui {i}', stratigraphic_unit_feature = o)
            o.create_xml(reuse = False)
            self.ids['sui'].append(o.uuid)
            o = rqo.HorizonInterpretation(m, title = f'hi {i}', genetic_boundary_feature = rqo.GeneticBoundaryFeature(m, uuid = self.ids['gbf'][i]))
            o.create_xml(reuse = False)
            self.ids['hi'].append(o.uuid)
            o = rqc.Crs(m, x_offset = 100.0 * i, title = f'crs {i}')
            o.create_xml(reuse = False)
            self.ids['crs'].append(o.uuid)
        for i in range(3):
            o = rqs.StratigraphicColumnRank(m, title = f'rank {i}', rank_index = [2, 0, 1][i], earth_model_feature_uuid = self.ids['of'][0], strata_uuid_list = self.ids['sui'][:1 + i % 2])
            o.create_xml(reuse = False)
            self.ids['rank'].append(o.uuid)

    def on(self, m):
        w = World(m, False)
        w.ids = self.ids
        return w

    def u(self, kind, i):
        return None if i is None else self.ids[kind][i]

    def f(self, cls, kind, i):
        return None if i is None else cls(self.m, uuid = self.ids[kind][i])

    def hod(self, p):
        return (None, None) if p is None else (U(self.ids['suf'][p[0]]), U(self.ids['suf'][p[1]]))

    def fe(self, kind, i):
        if i is None:
            return None
        types = dict(gbf = 'GeneticBoundaryFeature', gbb = 'GeneticBoundaryFeature', tbf = 'TectonicBoundaryFeature', bf = 'BoundaryFeature', wf = 'WellboreFeature', of = 'OrganizationFeature', gf = 'GeobodyFeature', fb = 'FluidBoundaryFeature', guf = 'GeologicUnitFeature', suf = 'StratigraphicUnitFeature')
        return (U(self.ids[kind][i]), types[kind], f'{kind} {i}')


def with_hod(o, w, a, name = 'has_occurred_during'):
    setattr(o, name, w.hod(a['hod']))
    return o


def vhod(o, name = 'has_occurred_during'):
    b, t = getattr(o, name)
    return (U(b), U(t))


# each class: (attribute strategies, make(world, attributes), class, view of object, view expected from attributes)
C = {}


def simple_feature(name, cls):
    C[name] = (dict(title = T, extra = EX, orig = OT), lambda w, a: cls(w.m, feature_name = a['title'], extra_metadata = a['extra'], originator = a['orig']), cls, lambda o: dict(name = o.feature_name), lambda w, a: dict(name = a['title']))


for n_, c_ in [('geobody_feature', rqo.GeobodyFeature), ('boundary_feature', rqo.BoundaryFeature), ('frontier_feature', rqo.FrontierFeature), ('geologic_unit_feature', rqo.GeologicUnitFeature), ('wellbore_feature', rqo.WellboreFeature)]:
    simple_feature(n_, c_)

C['organization_feature'] = (dict(title = T, extra = EX, orig = OT, kind = st.sampled_from(rqo.OrganizationFeature.valid_kinds)), lambda w, a: rqo.OrganizationFeature(w.m, feature_name = a['title'], organization_kind = a['kind'], extra_metadata = a['extra'], originator = a['orig']),
                             rqo.OrganizationFeature, lambda o: dict(kind = o.organization_kind), lambda w, a: dict(kind = a['kind']))
C['fluid_boundary_feature'] = (dict(title = T, extra = EX, orig = OT, kind = st.sampled_from(rqo.FluidBoundaryFeature.valid_kinds)), lambda w, a: rqo.FluidBoundaryFeature(w.m, feature_name = a['title'], kind = a['kind'], extra_metadata = a['extra'], originator = a['orig']),
                               rqo.FluidBoundaryFeature, lambda o: dict(kind = o.kind), lambda w, a: dict(kind = a['kind']))
C['tectonic_boundary_feature'] = (dict(title = T, extra = EX, orig = OT, kind = st.sampled_from(rqo.TectonicBoundaryFeature.valid_kinds)), lambda w, a: rqo.TectonicBoundaryFeature(w.m, feature_name = a['title'], kind = a['kind'], extra_metadata = a['extra'], originator = a['orig']),
                                  rqo.TectonicBoundaryFeature, lambda o: dict(kind = o.kind), lambda w, a: dict(kind = a['kind']))
C['genetic_boundary_feature'] = (dict(title = T, extra = EX, orig = OT, kind = st.sampled_from(rqo.GeneticBoundaryFeature.valid_kinds), age = st.one_of(st.none(), st.tuples(st.sampled_from(['2000-01-01T00:00:00Z', '1999-12-31T23:59:59Z']), st.one_of(st.none(), st.integers(-10**9, 10**3))).map(list))),
                                 lambda w, a: rqo.GeneticBoundaryFeature(w.m, feature_name = a['title'], kind = a['kind'], extra_metadata = a['extra'], originator = a['orig'], absolute_age = None if a['age'] is None else tuple(a['age'])),
                                 rqo.GeneticBoundaryFeature, lambda o: dict(kind = o.kind, age = None if o.absolute_age is None else list(o.absolute_age)), lambda w, a: dict(kind = a['kind'], age = a['age']))


def any_boundary(w, r):
    return w.f({'fb': rqo.FluidBoundaryFeature, 'bf': rqo.BoundaryFeature}[r[0]], r[0], r[1])


BREF = st.tuples(st.sampled_from(['fb', 'bf']), IDX).map(list)
C['rock_fluid_unit_feature'] = (dict(title = T, extra = EX, orig = OT, phase = st.sampled_from(rqo.RockFluidUnitFeature.valid_phases), top = BREF, base = BREF),
                                lambda w, a: rqo.RockFluidUnitFeature(w.m, feature_name = a['title'], phase = a['phase'], top_boundary_feature = any_boundary(w, a['top']), base_boundary_feature = any_boundary(w, a['base']), extra_metadata = a['extra'], originator = a['orig']),
                                rqo.RockFluidUnitFeature, lambda o: dict(phase = o.phase, top = feat(o, 'top_boundary_feature'), base = feat(o, 'base_boundary_feature')), lambda w, a: dict(phase = a['phase'], top = w.fe(*a['top']), base = w.fe(*a['base'])))
C['earth_model_interp'] = (dict(title = OT, extra = EX, orig = OT, dom = DOM, f = IDX, hod = HOD), lambda w, a: with_hod(rqo.EarthModelInterpretation(w.m, title = a['title'], organization_feature = w.f(rqo.OrganizationFeature, 'of', a['f']), domain = a['dom'], extra_metadata = a['extra'], originator = a['orig']), w, a),
                           rqo.EarthModelInterpretation, lambda o: dict(dom = o.domain, f = feat(o, 'organization_feature'), hod = vhod(o)), lambda w, a: dict(dom = a['dom'], f = w.fe('of', a['f']), hod = w.hod(a['hod']), title = a['title'] or f'of {a["f"]}'))
C['fault_interp'] = (dict(title = OT, extra = EX, orig = OT, dom = DOM, f = IDX, hod = HOD, listric = st.sampled_from([None, True, False]), throw = opt(VAL), az = opt(VAL), dip = opt(fl(0, 90, 2)), til = st.one_of(st.none(), st.none(), st.lists(st.tuples(st.sampled_from(['reverse', 'strike-slip', 'thrust', 'scissor', 'variable']), HOD).map(list), min_size = 1, max_size = 3))),
                     lambda w, a: make_fault(w, a), rqo.FaultInterpretation,
                     lambda o: dict(dom = o.domain, f = feat(o, 'tectonic_boundary_feature'), hod = vhod(o, 'main_has_occurred_during'), listric = o.is_listric, normal = o.is_normal, throw = o.maximum_throw, az = o.mean_azimuth, dip = o.mean_dip, til = None if o.throw_interpretation_list is None else [(k, (U(p[0]), U(p[1]))) for k, p in o.throw_interpretation_list]),
                     lambda w, a: dict(dom = a['dom'], f = w.fe('tbf', a['f']), hod = w.hod(a['hod']), listric = a['listric'], normal = a['listric'] is None, throw = a['throw'], az = a['az'], dip = a['dip'], til = None if a['til'] is None else [(k, w.hod(p)) for k, p in a['til']], title = a['title'] or f'tbf {a["f"]}'))


def make_fault(w, a):
    o = rqo.FaultInterpretation(w.m, title = a['title'], tectonic_boundary_feature = w.f(rqo.TectonicBoundaryFeature, 'tbf', a['f']), domain = a['dom'], is_normal = a['listric'] is None, is_listric = a['listric'], maximum_throw = a['throw'], mean_azimuth = a['az'], mean_dip = a['dip'], extra_metadata = a['extra'], originator = a['orig'])
    if a['til'] is not None:
        o.throw_interpretation_list = [(k, w.hod(p)) for k, p in a['til']]
    return with_hod(o, w, a, 'main_has_occurred_during')


C['horizon_interp'] = (dict(title = OT, extra = EX, orig = OT, dom = DOM, f = IDX, hod = HOD, rel = st.one_of(st.none(), st.lists(st.sampled_from(BREL), min_size = 1, max_size = 3, unique = True)), seq = opt(st.sampled_from(['flooding', 'ravinement', 'maximum flooding', 'transgressive']))),
                       lambda w, a: with_hod(rqo.HorizonInterpretation(w.m, title = a['title'], genetic_boundary_feature = w.f(rqo.GeneticBoundaryFeature, 'gbf', a['f']), domain = a['dom'], boundary_relation_list = a['rel'], sequence_stratigraphy_surface = a['seq'], extra_metadata = a['extra'], originator = a['orig']), w, a),
                       rqo.HorizonInterpretation, lambda o: dict(dom = o.domain, f = feat(o, 'genetic_boundary_feature'), hod = vhod(o), rel = o.boundary_relation_list, seq = o.sequence_stratigraphy_surface),
                       lambda w, a: dict(dom = a['dom'], f = w.fe('gbf', a['f']), hod = w.hod(a['hod']), rel = a['rel'], seq = a['seq'], title = a['title'] or f'gbf {a["f"]}'))
C['geobody_boundary_interp'] = (dict(title = OT, extra = EX, orig = OT, dom = DOM, f = IDX, hod = HOD, rel = st.one_of(st.none(), st.lists(st.sampled_from(BREL), min_size = 1, max_size = 3, unique = True))),
                                lambda w, a: with_hod(rqo.GeobodyBoundaryInterpretation(w.m, title = a['title'], genetic_boundary_feature = w.f(rqo.GeneticBoundaryFeature, 'gbb', a['f']), domain = a['dom'], boundary_relation_list = a['rel'], extra_metadata = a['extra'], originator = a['orig']), w, a),
                                rqo.GeobodyBoundaryInterpretation, lambda o: dict(dom = o.domain, f = feat(o, 'genetic_boundary_feature'), hod = vhod(o), rel = o.boundary_relation_list), lambda w, a: dict(dom = a['dom'], f = w.fe('gbb', a['f']), hod = w.hod(a['hod']), rel = a['rel'], title = a['title'] or f'gbb {a["f"]}'))
C['geobody_interp'] = (dict(title = T, extra = EX, orig = OT, dom = DOM, f = IDX, hod = HOD, comp = opt(st.sampled_from(rqo.GeobodyInterpretation.valid_compositions)), imp = opt(st.sampled_from(rqo.GeobodyInterpretation.valid_implacements)), shape = opt(st.sampled_from(rqo.GeobodyInterpretation.valid_geobody_shapes))),
                       lambda w, a: with_hod(rqo.GeobodyInterpretation(w.m, title = a['title'], geobody_feature = w.f(rqo.GeobodyFeature, 'gf', a['f']), domain = a['dom'], composition = a['comp'], material_implacement = a['imp'], geobody_shape = a['shape'], extra_metadata = a['extra'], originator = a['orig']), w, a),
                       rqo.GeobodyInterpretation, lambda o: dict(dom = o.domain, f = feat(o, 'geobody_feature'), hod = vhod(o), comp = o.composition, imp = o.implacement, shape = o.geobody_shape), lambda w, a: dict(dom = a['dom'], f = w.fe('gf', a['f']), hod = w.hod(a['hod']), comp = a['comp'], imp = a['imp'], shape = a['shape']))
C['wellbore_interp'] = (dict(title = OT, extra = EX, orig = OT, dom = DOM, f = IDX, drilled = st.sampled_from([True, False])), lambda w, a: rqo.WellboreInterpretation(w.m, title = a['title'], wellbore_feature = w.f(rqo.WellboreFeature, 'wf', a['f']), domain = a['dom'], is_drilled = a['drilled'], extra_metadata = a['extra'], originator = a['orig']),
                        rqo.WellboreInterpretation, lambda o: dict(dom = o.domain, f = feat(o, 'wellbore_feature'), drilled = o.is_drilled), lambda w, a: dict(dom = a['dom'], f = w.fe('wf', a['f']), drilled = a['drilled'], title = a['title'] or f'wf {a["f"]}'))
C['boundary_feature_interp'] = (dict(title = OT, extra = EX, orig = OT, dom = DOM, f = IDX, hod = HOD), lambda w, a: with_hod(rqo.BoundaryFeatureInterpretation(w.m, title = a['title'], boundary_feature = w.f(rqo.BoundaryFeature, 'bf', a['f']), domain = a['dom'], extra_metadata = a['extra'], originator = a['orig']), w, a),
                                rqo.BoundaryFeatureInterpretation, lambda o: dict(dom = o.domain, f = feat(o, 'boundary_feature'), hod = vhod(o), fu = U(o.feature_uuid)), lambda w, a: dict(dom = a['dom'], f = w.fe('bf', a['f']), hod = w.hod(a['hod']), fu = U(w.u('bf', a['f'])), title = a['title'] or f'bf {a["f"]}'))
GREF = st.tuples(st.sampled_from(['guf', 'gf', 'bf', 'of']), IDX).map(list)
C['generic_interp'] = (dict(title = OT, extra = EX, orig = OT, dom = DOM, f = GREF, hod = HOD), lambda w, a: with_hod(rqo.GenericInterpretation(w.m, title = a['title'], feature_uuid = w.u(*a['f']), domain = a['dom'], extra_metadata = a['extra'], originator = a['orig']), w, a),
                       rqo.GenericInterpretation, lambda o: dict(dom = o.domain, f = U(o.feature_uuid), hod = vhod(o)), lambda w, a: dict(dom = a['dom'], f = U(w.u(*a['f'])), hod = w.hod(a['hod']), title = a['title'] or f'{a["f"][0]} {a["f"][1]}'))
COMP = [c for c in rqstc.valid_compositions if not c.endswith(' ')]
UREF = st.tuples(st.sampled_from(['guf', 'guf', 'suf']), IDX).map(list)
C['geologic_unit_interp'] = (dict(title = OT, extra = EX, dom = DOM, f = UREF, hod = HOD, comp = opt(st.sampled_from(COMP)), imp = opt(st.sampled_from(rqstc.valid_implacements))),
                             lambda w, a: with_hod(rqs.GeologicUnitInterpretation(w.m, title = a['title'], domain = a['dom'], geologic_unit_feature = w.f({'guf': rqo.GeologicUnitFeature, 'suf': rqs.StratigraphicUnitFeature}[a['f'][0]], *a['f']), composition = a['comp'], material_implacement = a['imp'], extra_metadata = a['extra']), w, a),
                             rqs.GeologicUnitInterpretation, lambda o: dict(dom = o.domain, f = feat(o, 'geologic_unit_feature'), hod = vhod(o), comp = o.composition, imp = o.material_implacement), lambda w, a: dict(dom = a['dom'], f = w.fe(*a['f']), hod = w.hod(a['hod']), comp = a['comp'], imp = a['imp']))
C['strat_unit_feature'] = (dict(title = T, extra = EX, orig = OT, top = opt(UREF), bot = opt(UREF)), lambda w, a: rqs.StratigraphicUnitFeature(w.m, title = a['title'], top_unit_uuid = w.u(*a['top']) if a['top'] else None, bottom_unit_uuid = w.u(*a['bot']) if a['bot'] else None, extra_metadata = a['extra'], originator = a['orig']),
                           rqs.StratigraphicUnitFeature, lambda o: dict(top = U(o.top_unit_uuid), bot = U(o.bottom_unit_uuid)), lambda w, a: dict(top = U(w.u(*a['top'])) if a['top'] else None, bot = U(w.u(*a['bot'])) if a['bot'] else None))
C['strat_unit_interp'] = (dict(title = OT, extra = EX, dom = DOM, f = IDX, hod = HOD, comp = opt(st.sampled_from(COMP)), imp = opt(st.sampled_from(rqstc.valid_implacements)), mode = opt(st.sampled_from(rqstc.valid_deposition_modes)), lo = opt(VAL), hi = opt(VAL), uom = st.sampled_from(['m', 'ft'])),
                          lambda w, a: with_hod(rqs.StratigraphicUnitInterpretation(w.m, title = a['title'], domain = a['dom'], stratigraphic_unit_feature = w.f(rqs.StratigraphicUnitFeature, 'suf', a['f']), composition = a['comp'], material_implacement = a['imp'], deposition_mode = a['mode'], min_thickness = a['lo'], max_thickness = a['hi'],
                                                                                     thickness_uom = a['uom'] if a['lo'] is not None or a['hi'] is not None else None, extra_metadata = a['extra']), w, a), rqs.StratigraphicUnitInterpretation,
                          lambda o: dict(dom = o.domain, f = feat(o, 'stratigraphic_unit_feature'), hod = vhod(o), comp = o.composition, imp = o.material_implacement, mode = o.deposition_mode, lo = o.min_thickness, hi = o.max_thickness, uom = o.thickness_uom),
                          lambda w, a: dict(dom = a['dom'], f = w.fe('suf', a['f']), hod = w.hod(a['hod']), comp = a['comp'], imp = a['imp'], mode = a['mode'], lo = a['lo'], hi = a['hi'], uom = a['uom'] if a['lo'] is not None or a['hi'] is not None else None))
C['strat_rank'] = (dict(title = T, extra = EX, dom = DOM, f = IDX, hod = HOD, index = st.integers(0, 5), units = st.lists(IDX, min_size = 1, max_size = 4), contacts = st.lists(CONTACT, max_size = 3), horizons = st.sampled_from([None, None, 'plain', 'modes'])), lambda w, a: make_rank(w, a), rqs.StratigraphicColumnRank,
                   lambda o: dict(dom = o.domain, f = U(o.feature_uuid), hod = vhod(o), index = o.index, units = [(i, U(x.uuid)) for i, x in o.units], contacts = [view_contact(c) for c in o.contacts], it = [U(x.uuid) for x in o.iter_units()]), lambda w, a: expect_rank(w, a))


def view_contact(c):
    return (c.index, c.contact_relationship, c.verb, U(c.subject_uuid), U(c.direct_object_uuid), c.subject_contact_side, c.subject_contact_mode, c.direct_object_contact_side, c.direct_object_contact_mode, U(c.part_of_uuid))


def make_rank(w, a):
    o = rqs.StratigraphicColumnRank(w.m, title = a['title'], domain = a['dom'], rank_index = a['index'], earth_model_feature_uuid = w.u('of', a['f']), strata_uuid_list = [w.u('sui', i) for i in a['units']], extra_metadata = a['extra'])
    if a['horizons']:
        kw = dict(older_contact_mode = 'erosion', younger_contact_mode = 'baselap') if a['horizons'] == 'modes' else {}
        o.set_contacts_from_horizons([w.u('hi', i % 2) for i in range(len(a['units']) - 1)], **kw)
    else:
        o.contacts = [rqs.BinaryContactInterpretation(w.m, index = i, contact_relationship = c['rel'], verb = c['verb'], subject_uuid = w.u('sui', c['subj']), direct_object_uuid = w.u('sui', c['obj']), subject_contact_side = c['ss'], subject_contact_mode = c['sm'],
                                                      direct_object_contact_side = c['os_'], direct_object_contact_mode = c['om'], part_of_uuid = w.u('hi', c['part'])) for i, c in enumerate(a['contacts'])]
    return with_hod(o, w, a)


def expect_rank(w, a):
    us = [U(w.u('sui', i)) for i in a['units']]
    if a['horizons']:
        om, ym = ('erosion', 'baselap') if a['horizons'] == 'modes' else (None, None)
        cs = [(i, 'stratigraphic unit to stratigraphic unit', 'stops at', us[i], us[i + 1], 'older', om, 'younger', ym, U(w.u('hi', i % 2))) for i in range(len(us) - 1)]
    else:
        cs = [(i, c['rel'], c['verb'], U(w.u('sui', c['subj'])), U(w.u('sui', c['obj'])), c['ss'], c['sm'], c['os_'], c['om'], U(w.u('hi', c['part']))) for i, c in enumerate(a['contacts'])]
    return dict(dom = a['dom'], f = U(w.u('of', a['f'])), hod = w.hod(a['hod']), index = a['index'], units = list(enumerate(us)), contacts = cs, it = us)


C['strat_column'] = (dict(title = T, extra = EX, ranks = st.lists(st.integers(0, 2), min_size = 1, max_size = 3, unique = True)), lambda w, a: rqs.StratigraphicColumn(w.m, title = a['title'], rank_uuid_list = [w.ids['rank'][i] for i in a['ranks']], extra_metadata = a['extra']),
                     rqs.StratigraphicColumn, lambda o: dict(ranks = [U(r.uuid) for r in o.iter_ranks()]), lambda w, a: dict(ranks = [U(w.ids['rank'][i]) for i in (1, 2, 0) if i in a['ranks']]))
C['property_kind'] = (dict(title = T, extra = EX, orig = OT, abstract = st.booleans(), uom = opt(st.sampled_from(['m', 'Euc', 'bar', 'm3/m3'])), naming = st.sampled_from(['urn:resqml:bp.com:resqpy', 'urn:x:y', 'http://a/b?c=d&e']), parent = st.sampled_from(['continuous', 'discrete', 'length', 'porosity'])),
                      lambda w, a: rqp.PropertyKind(w.m, title = a['title'], is_abstract = a['abstract'], example_uom = a['uom'], naming_system = a['naming'], parent_property_kind = a['parent'], extra_metadata = a['extra'], originator = a['orig']), rqp.PropertyKind,
                      lambda o: dict(abstract = o.is_abstract, uom = o.example_uom or 'Euc', naming = o.naming_system, parent = o.parent_kind), lambda w, a: dict(abstract = a['abstract'], uom = a['uom'] or 'Euc', naming = a['naming'], parent = a['parent']))
C['string_lookup'] = (dict(title = T, extra = EX, orig = OT, d = LOOK), lambda w, a: rqp.StringLookup(w.m, title = a['title'], int_to_str_dict = dict(map(tuple, a['d'])), extra_metadata = a['extra'], originator = a['orig']), rqp.StringLookup,
                      lambda o: view_lookup(o), lambda w, a: expect_lookup(dict(map(tuple, a['d']))))


def probe(keys):
    return sorted(set(keys) | {k + 1 for k in keys} | {k - 1 for k in keys} | {0, -1, 50})


def view_lookup(o):
    return dict(d = dict(o.as_dict()), lo = o.min_index, hi = o.max_index, get = [o.get_string(k) for k in probe(o.as_dict().keys())], inv = [o.as_dict()[o.get_index_for_string(v)] for v in sorted(o.as_dict().values())], no = o.get_index_for_string('~ no such ~'))


def expect_lookup(d):
    return dict(d = d, lo = min(d), hi = max(d), get = [d.get(k) for k in probe(d.keys())], inv = sorted(d.values()), no = None)


XYZ = st.tuples(*[st.one_of(fl(-1000, 1000, 3), st.sampled_from([0.0, 1234567.891, -1e7, 1e-3]))] * 3).map(list)
C['md_datum'] = (dict(title = T, extra = EX, orig = OT, crs = IDX, xyz = XYZ, ref = st.sampled_from(rqw.valid_md_reference_list if hasattr(rqw, 'valid_md_reference_list') else ['ground level', 'kelly bushing', 'mean sea level', 'derrick floor', 'casing flange', 'arbitrary point', 'crown valve', 'rotary bushing', 'rotary table', 'sea floor', 'lowest astronomical tide', 'mean higher high water', 'mean high water', 'mean lower low water', 'mean low water', 'mean tide level', 'kickoff point'])),
                 lambda w, a: rqw.MdDatum(w.m, title = a['title'], crs_uuid = w.u('crs', a['crs']), location = tuple(a['xyz']), md_reference = a['ref'], extra_metadata = a['extra'], originator = a['orig']), rqw.MdDatum,
                 lambda o: dict(crs = U(o.crs_uuid), xyz = [float(v) for v in o.location], ref = o.md_reference), lambda w, a: dict(crs = U(w.u('crs', a['crs'])), xyz = a['xyz'], ref = a['ref']))

# attributes which the equivalence of a class does not (need to) consider: the person, and where the class says so
NOT_DEFINING = {'string_lookup': {'extra'}, 'strat_unit_feature': {'top', 'bot'}, 'strat_column': {'title'}, 'md_datum': {'title', 'extra'}, 'strat_unit_interp': {'uom', 'lo', 'hi'}}
NO_REUSE = {'md_datum', 'strat_rank', 'horizon_interp'}  # horizon_interp: see the known finding


@st.composite
def specs(draw):
    name = draw(st.sampled_from(sorted(C)))
    strat = C[name][0]
    a = {k: draw(s) for k, s in strat.items()}
    key = draw(st.sampled_from(sorted(strat)))
    b = draw(strat[key])
    key2 = draw(st.sampled_from(sorted(strat)))
    return dict(cls = name, a = a, key = key, b = b, key2 = key2, c = draw(strat[key2]), sets = draw(st.lists(st.tuples(st.integers(-3, 60), Z.PLAIN).map(list), max_size = 3)) if name == 'string_lookup' else [])


def full_view(name, o):
    return dict(C[name][3](o), title_ = o.title, extra_ = dict(o.extra_metadata or {}), orig_ = o.originator)


def same(name, key, x, y):
    """Whether two values of an attribute are the same for the purpose of equivalence (None where there is room for doubt)."""
    if x == y:
        return True
    if key in NOT_DEFINING.get(name, ()) or key == 'orig':
        return None
    if name == 'strat_column' and key == 'ranks':
        return sorted(x) == sorted(y)  # ranks are ordered by their rank index
    if key == 'rel':
        return set(x or []) == set(y or [])
    if name == 'fault_interp' and key in ('throw', 'az', 'dip') and x is not None and y is not None:
        return False if abs(x - y) > max(0.6, 0.002 * max(abs(x), abs(y))) else None
    if name == 'property_kind' and key == 'uom':
        return (x or 'Euc') == (y or 'Euc') if x and y else None
    if name == 'strat_unit_interp' and key in ('mode', 'lo', 'hi') and (x is None or y is None):
        return None  # leniency where one is unspecified
    if key == 'xyz':
        return False if max(abs(p - q) for p, q in zip(x, y)) > 1.0 and all(abs(p - q) > 1e-3 * max(abs(p), abs(q)) or p == q for p, q in zip(x, y)) else None
    if key == 'title' and (not x or not y):
        return None
    return False


@check('objects', specs(), quick = 3000, thorough = 100000, shards = 6, rule = 'an object with a variant which differs in a defining attribute')
def objects(spec, ctx):
    name, a = spec['cls'], spec['a']
    _, make, cls, view, expect = C[name]
    m = ctx.new_model('m.epc')
    w = World(m)
    kw = {} if name in NO_REUSE else dict(reuse = False)
    o = make(w, a)
    for k, v in spec['sets']:
        o.set_string(k, v)
    if spec['sets']:
        a = dict(a, d = [[k, v] for k, v in {**dict(map(tuple, a['d'])), **dict(map(tuple, spec['sets']))}.items()])
    want = expect(w, a)
    title = want.pop('title', a['title'])
    got = full_view(name, o)
    eq({k: got[k] for k in want}, want, f'{name}: attributes of the new object')
    o.create_xml(**kw)
    ok(o.root is not None and m.part_for_uuid(o.uuid) is not None, 'part not added to model')
    before_lists = (o.get_list(), o.length()) if name == 'string_lookup' else None
    m.store_epc(quiet = True)
    m = ctx.reopen(m)
    w = w.on(m)
    x = cls(m, uuid = o.uuid)
    got = full_view(name, x)
    for k in want:
        eq(got[k], want[k], f'{name}: {k} after storage')
    if name == 'string_lookup':
        eq((x.get_list(), x.length()), before_lists, 'list and length of lookup after storage')
    if title is not None:
        eq(got['title_'], title, f'{name}: title after storage')
    eq(got['extra_'], dict(a['extra']), f'{name}: extra metadata after storage')
    if a.get('orig'):
        eq(got['orig_'], a['orig'], f'{name}: originator after storage')
    ok(x == cls(m, uuid = o.uuid), f'{name}: not equal to itself loaded again')
    ok(x == o and o == x, f'{name}: loaded object not equivalent to the original')
    # twin
    n0 = len(m.parts())
    if name not in NO_REUSE or spec.get('_known'):
        again = make(w, a)
        again.create_xml(reuse = True)
        eq(U(again.uuid), U(o.uuid), f'{name}: uuid when creating an equivalent object with reuse')
        eq(len(m.parts()), n0, f'{name}: number of parts when creating an equivalent object with reuse')
    twin = make(w, a)
    twin.create_xml(**kw)
    eq(len(m.parts()), n0 + 1, f'{name}: number of parts when creating a twin without reuse')
    t = cls(m, uuid = twin.uuid)
    if name != 'strat_rank':
        ok(t == x and x == t, f'{name}: twin not reported as equivalent')
        ok(not (t != x), f'{name}: twin reported as different by the not equal operator')
    # variant
    v = dict(a)
    v[spec['key']] = spec['b']
    s = same(name, spec['key'], a[spec['key']], v[spec['key']])
    ctx.label(name)
    if s is None:
        return
    if s is False:
        ctx.nontrivial()
    var = make(w, v)
    if name not in NO_REUSE or spec.get('_known'):
        n0 = len(m.parts())
        var.create_xml(reuse = True)
        if s:
            ok(U(var.uuid) in (U(o.uuid), U(twin.uuid)), f'{name}: equivalent object not found by reuse')
        else:
            ok(U(var.uuid) not in (U(o.uuid), U(twin.uuid)), f'{name}: object differing in {spec["key"]} replaced by another on creation with reuse')
        eq(len(m.parts()), n0 + (0 if s else 1), f'{name}: number of parts when creating a variant with reuse')
    else:
        var.create_xml(**kw)
    y = cls(m, uuid = var.uuid)
    if name != 'strat_rank':
        eq([bool(y == x), bool(x == y), bool(y != x)], [s, s, not s], f'{name}: equivalence when {spec["key"]} is {a[spec["key"]]!r} and {spec["b"]!r}')
        if spec['key'] == 'extra' and not s and 'extra' not in NOT_DEFINING.get(name, ()):
            ok(y.is_equivalent(x, check_extra_metadata = False), f'{name}: not equivalent when not checking extra metadata')
    # parts written later do not disturb the earlier ones
    eq(full_view(name, cls(m, uuid = o.uuid)), got, f'{name}: attributes of the original after others have been added')
