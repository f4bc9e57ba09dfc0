"""property-based testing: trajectories and surveys against piecewise lines and circular arcs worked out here

Random paths are given as arrays, lists, dataframes and text files in various units, crs and datums; points at and between
the stations, tangents, inclinations, splines and tables are compared with direct calculation, and everything again after
storage.  Deviation surveys (degrees or radians, vertical parts, full turns of azimuth) become trajectories whose control
points are compared with circular arcs of the right length, and the survey is recovered by reflecting tangents in chords.
"""
import math
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.grid as grr
import resqpy.organize as rqo
import resqpy.well as rqw
import resqpy.olio.uuid as bu
import resqpy.olio.vector_utilities as vec

from pbt.core import *
from pbt.lib.gen import *
from pbt.lib import grids as gl

seeds = st.integers(0, 10 ** 6)
METRES = {'m': 1.0, 'ft': 0.3048}
CRS = st.sampled_from([{}, {'z_inc_down': False}, {'xy_units': 'ft', 'z_units': 'ft'}, {'xy_units': 'm', 'z_units': 'ft'}, {'x_offset': 1000.0, 'y_offset': -50.0, 'z_offset': 12.0}])


def make_path(s):
    rng = np.random.default_rng(s['seed'])
    n = s['n']
    d = rng.normal(size = 3) * np.array([0.5, 0.5, 1.0])
    d[2] = abs(d[2]) + 0.1
    pts = [np.array([rng.uniform(-1000, 1000), rng.uniform(-1000, 1000), rng.uniform(-50, 500)])]
    for _ in range(n - 1):
        d = d / np.linalg.norm(d) + rng.normal(size = 3) * s['wiggle']
        d = d / np.linalg.norm(d)
        if s.get('straight') == 'down':
            d = np.array([0.0, 0.0, 1.0])
        elif s.get('straight') == 'level':
            d[2] = 0.0
            d = d / np.linalg.norm(d)
        pts.append(pts[-1] + d * rng.uniform(1.0, 200.0))
    pts = np.array(pts)
    steps = np.linalg.norm(np.diff(pts, axis = 0), axis = 1) * rng.uniform(1.0, 1.1, n - 1)
    mds = s['start'] + np.concatenate(([0.0], np.cumsum(steps)))
    return pts, mds


PATH = st.fixed_dictionaries(dict(n = st.integers(2, 9), seed = seeds, wiggle = st.sampled_from([0.1, 0.5, 1.5]), straight = st.sampled_from([None, None, None, 'down', 'level']), start = st.sampled_from([0.0, 0.0, 100.0, 12.5])))


def expected_tangents(p, weight):
    power = {'linear': 0, 'square': 1, 'cube': 2}[weight]
    d = np.diff(p, axis = 0)
    l = np.linalg.norm(d, axis = 1)
    u = d / l[:, None]
    t = np.empty_like(p)
    t[0], t[-1] = u[0], u[-1]
    for k in range(1, len(p) - 1):
        t[k] = u[k - 1] / l[k - 1] ** power + u[k] / l[k] ** power
        size = np.linalg.norm(t[k])
        t[k] = t[k] / size if size else np.nan
    return t


def at_md(md, mds, pts, datum):
    if md < mds[0]:
        f = md / mds[0]
        return (1.0 - f) * datum + f * pts[0]
    k = max(1, min(int(np.searchsorted(mds, md)), len(mds) - 1))
    f = (md - mds[k - 1]) / (mds[k] - mds[k - 1])
    return (1.0 - f) * pts[k - 1] + f * pts[k]


def judge_traj(t, pts, mds, datum, uom, crs, crs_kw, title, what, tangents = None, atol = 1.0e-9):
    eq(t.knot_count, len(mds), f'{what}: knots')
    eq(t.md_uom, uom, f'{what}: uom')
    ok(bu.matching_uuids(t.crs_uuid, crs.uuid), f'{what}: crs')
    eq(t.title, title, f'{what}: title')
    tol = atol + 1.0e-12 * float(np.abs(pts).max() + mds[-1])
    arr_close(np.asarray(t.measured_depths), mds, tol, f'{what}: measured depths')
    arr_close(np.asarray(t.control_points), pts, tol, f'{what}: control points')
    close(float(t.start_md), mds[0], tol, f'{what}: start')
    close(float(t.finish_md), mds[-1], tol, f'{what}: finish')
    if tangents is not None:
        ok(t.tangent_vectors is not None, f'{what}: no tangents')
        arr_close(np.asarray(t.tangent_vectors), tangents, 1.0e-6, f'{what}: tangents')
    else:
        ok(t.tangent_vectors is None, f'{what}: unwanted tangents')
    tol = 1.0e-6 + 1.0e-9 * float(np.abs(pts).max())
    for md, p in zip(np.asarray(t.measured_depths), pts):
        arr_close(np.asarray(t.xyz_for_md(float(md))), p, tol, f'{what}: place at md of a control point')
    rng = np.random.default_rng(len(mds))
    for md in list(rng.uniform(mds[0], mds[-1], 6)) + ([] if mds[0] == 0.0 else list(rng.uniform(0.0, mds[0], 3)) + [0.0]):
        arr_close(np.asarray(t.xyz_for_md(float(md))), at_md(md, mds, pts, datum), tol, f'{what}: place at md {md}')
    # no jumps
    for md in list(mds[1:-1]) + ([mds[0]] if mds[0] > 0.0 else []):
        e = 1.0e-6
        a, b = np.asarray(t.xyz_for_md(float(md - e))), np.asarray(t.xyz_for_md(float(md + e)))
        ok(np.linalg.norm(a - b) < 1.0e-3, f'{what}: jump at md {md}')
    ok(t.xyz_for_md(-1.0) is None and t.xyz_for_md(float(mds[-1]) + 1.0) is None, f'{what}: place beyond the ends')
    df = t.dataframe()
    eq(list(df.columns), ['MD', 'X', 'Y', 'Z'], f'{what}: columns')
    arr_eq(df.values.astype(float), np.column_stack((np.asarray(t.measured_depths), np.asarray(t.control_points))), f'{what}: dataframe')
    eq(list(t.dataframe(md_col = None, x_col = 'a').columns), ['a', 'Y', 'Z'], f'{what}: columns without md')
    d = np.diff(pts, axis = 0)
    d[:, 2] *= METRES[crs_kw.get('z_units', 'm')] / METRES[crs_kw.get('xy_units', 'm')] * (1.0 if crs_kw.get('z_inc_down', True) else -1.0)
    want = np.degrees(np.arctan2(np.hypot(d[:, 0], d[:, 1]), d[:, 2]))
    arr_close(np.asarray(t.inclinations()), want, 1.0e-6, f'{what}: inclinations')


def make_datum(m, crs, datum_crs_kw, place):
    """Datum at place in crs, held in another crs if given (offsets only)."""
    if datum_crs_kw is None:
        return rqw.MdDatum(m, crs_uuid = crs.uuid, location = tuple(float(x) for x in place), md_reference = 'kelly bushing'), crs
    other = gl.make_crs(m, datum_crs_kw)
    p = place.copy()[None]
    crs.convert_array_to(other, p)
    return rqw.MdDatum(m, crs_uuid = other.uuid, location = tuple(float(x) for x in p[0]), md_reference = 'kelly bushing'), other


@check('path', st.fixed_dictionaries(dict(path = PATH, crs = CRS, uom = st.sampled_from(['m', 'ft']), how = st.sampled_from(['lists', 'arrays', 'frame', 'csv', 'spaces', 'many wells']), tangents = st.sampled_from(['no', 'init', 'later', 'linear', 'square']), datum = st.sampled_from(['first', 'above', 'away', 'none', 'other crs']), interp = st.sampled_from([None, 'made', 'given']), domain = st.sampled_from([None, 'driller', 'logger']), extra = st.booleans())),
       quick = 200, thorough = 5000, rule = 'three or more knots')
def path(s, ctx):
    m = ctx.new_model('path')
    crs = gl.make_crs(m, s['crs'])
    pts, mds = make_path(s['path'])
    if len(mds) > 2:
        ctx.nontrivial()
    place = pts[0].copy()
    if s['datum'] == 'above':
        place[2] -= 30.0
    elif s['datum'] == 'away':
        place += np.array([5.0, -3.0, -20.0])
    datum = None
    if s['datum'] != 'none':
        datum, dcrs = make_datum(m, crs, dict(s['crs'], x_offset = 77.0, z_offset = -5.0) if s['datum'] == 'other crs' else None, place)
        datum.create_xml()
    kw = dict(length_uom = s['uom'], well_name = 'WELL_A', md_domain = s['domain'], set_tangent_vectors = s['tangents'] == 'init')
    if datum is not None:
        kw['md_datum'] = datum
    if datum is None or s['datum'] == 'other crs':
        kw['crs_uuid'] = crs.uuid
    if s['extra']:
        kw.update(originator = 'me', extra_metadata = {'rig': 'seven'})
    if s['interp'] == 'given':
        f = rqo.WellboreFeature(m, feature_name = 'WELL_A')
        f.create_xml()
        i = rqo.WellboreInterpretation(m, wellbore_feature = f, is_drilled = True)
        i.create_xml()
        kw['represented_interp'] = i
    frame = pd.DataFrame({'MD': mds, 'X': pts[:, 0], 'Y': pts[:, 1], 'Z': pts[:, 2]})
    given = pts.copy(), mds.copy()
    if s['how'] == 'lists':
        t = rqw.Trajectory(m, mds = [float(x) for x in mds], control_points = [tuple(p) for p in pts], **kw)
    elif s['how'] == 'arrays':
        t = rqw.Trajectory(m, mds = mds, control_points = pts, **kw)
    elif s['how'] == 'frame':
        t = rqw.Trajectory(m, data_frame = frame, **kw)
    else:
        name = ctx.path('traj.txt')
        if s['how'] == 'many wells':
            other = frame + 5.0
            frame['WELLNAME'] = 'WELL_A'
            other['WELLNAME'] = 'WELL_B'
            frame = pd.concat((other.iloc[:2], frame.iloc[:1], other.iloc[2:], frame.iloc[1:]))
        with open(name, 'w') as f:
            f.write('# a comment\n')
            frame.to_csv(f, sep = ' ' if s['how'] == 'spaces' else ',', index = False)
        t = rqw.Trajectory(m, ascii_trajectory_file = name, survey_file_space_separated = s['how'] == 'spaces', **kw)
    want = None
    if s['tangents'] == 'init':
        want = expected_tangents(pts, 'cube')
    elif s['tangents'] != 'no':
        want = expected_tangents(pts, 'cube' if s['tangents'] == 'later' else s['tangents'])
        got = t.set_tangents(**({} if s['tangents'] == 'later' else {'weight': s['tangents']}))
        arr_close(np.asarray(got), want, 1.0e-6, 'tangents returned')
    if want is not None and not np.isfinite(want).all():
        return
    judge_traj(t, pts, mds, place, s['uom'], crs, s['crs'], 'WELL_A', 'made', want)
    if s['how'] in ('arrays', 'lists'):
        t.control_points  # a copy
        arr_eq(pts, given[0], 'control points given')
    # written as text and read again
    for spaces in (False, True):
        name = ctx.path(f'out_{spaces}.txt')
        t.write_to_ascii_file(name, space_separated_instead_of_csv = spaces)
        t2 = rqw.Trajectory(m, ascii_trajectory_file = name, survey_file_space_separated = spaces, md_datum = t.md_datum, crs_uuid = crs.uuid, length_uom = s['uom'], well_name = 'WELL_A')
        judge_traj(t2, pts, mds, place, s['uom'], crs, s['crs'], 'WELL_A', 'by way of text')
    # storage
    if s['interp'] == 'made':
        t.create_feature_and_interpretation()
    t.write_hdf5()
    t.create_xml()
    m.store_epc()
    m = ctx.reopen(m)
    u = rqw.Trajectory(m, uuid = t.uuid)
    judge_traj(u, pts, mds, place, s['uom'], crs, s['crs'], 'WELL_A', 'stored', want)
    eq(u.md_domain, s['domain'], 'stored: md domain')
    eq(u.line_kind_index, 5, 'stored: line kind')
    ok(bu.matching_uuids(u.md_datum.uuid, t.md_datum.uuid), 'stored: datum')
    eq(u.md_datum.md_reference, t.md_datum.md_reference, 'stored: datum reference')
    arr_close(np.asarray(u.md_datum.location), np.asarray(t.md_datum.location), 1.0e-9, 'stored: datum location')
    ok(bu.matching_uuids(u.md_datum.crs_uuid, t.md_datum.crs_uuid), 'stored: datum crs')
    eq(u.md_datum == t.md_datum, True, 'stored: datum equality')
    if s['interp']:
        ok(u.wellbore_interpretation is not None, 'stored: interpretation')
        ok(bu.matching_uuids(u.wellbore_interpretation.uuid, t.wellbore_interpretation.uuid), 'stored: interpretation')
    else:
        ok(u.wellbore_interpretation is None, 'stored: interpretation')
    if s['extra']:
        eq(u.extra_metadata, {'rig': 'seven'}, 'stored: extra metadata')
        eq(u.originator, 'me', 'stored: originator')
    eq(list(u.iter_wellbore_frames()), [], 'stored: frames')
    v = rqw.Trajectory(m, uuid = t.uuid, set_tangent_vectors = True)
    arr_close(np.asarray(v.tangent_vectors), want if want is not None else expected_tangents(pts, 'cube'), 1.0e-6, 'tangents wanted on loading')
    f = v.set_tangents(force = True, weight = 'linear')
    w = expected_tangents(pts, 'linear')
    if np.isfinite(w).all():
        arr_close(np.asarray(f), w, 1.0e-6, 'tangents forced')


def unit(az, inc):
    """Direction in units of x, y and z down, from radians."""
    return np.array([math.sin(inc) * math.sin(az), math.sin(inc) * math.cos(az), math.cos(inc)])


@st.composite
def surveys(draw):
    n = draw(st.integers(2, 8))
    stations = []
    az, inc = draw(st.integers(0, 360)), draw(st.sampled_from([0, 0, 5, 45, 90]))
    for _ in range(n):
        kind = draw(st.sampled_from(['bend', 'bend', 'same', 'turn', 'upright', 'flip']))
        if kind == 'bend':
            az = az + draw(st.integers(-40, 40))
            inc = min(max(inc + draw(st.integers(-25, 25)), 0), 120)
        elif kind == 'turn':
            az = az + draw(st.sampled_from([90, -100, 130]))
        elif kind == 'upright':
            inc = 0
            az = draw(st.integers(0, 360))
        elif kind == 'flip':
            az = az + 360 if az < 180 else az - 360
        stations.append([draw(st.sampled_from([1.0, 30.0, 95.3])), az, inc])
    return dict(stations = stations, start = draw(st.sampled_from([0.0, 50.0, 1000.0])))


@check('survey', st.fixed_dictionaries(dict(survey = surveys(), crs = CRS, uom = st.sampled_from(['m', 'ft']), rad = st.booleans(), how = st.sampled_from(['lists', 'arrays', 'frame', 'csv', 'spaces', 'named columns']), place = st.sampled_from([[0.0, 0.0, 0.0], [1234.5, -77.25, 100.0]]), interp = st.booleans(), via = st.sampled_from(['init', 'stored', 'method']), tangents = st.booleans())),
       quick = 250, thorough = 6000, rule = 'path bends')
def survey(s, ctx):
    m = ctx.new_model('survey')
    crs = gl.make_crs(m, s['crs'])
    st_ = np.array(s['survey']['stations'], dtype = float)
    mds = s['survey']['start'] + np.concatenate(([0.0], np.cumsum(st_[1:, 0])))
    az, inc = np.radians(st_[:, 1]), np.radians(st_[:, 2])
    dirs = np.array([unit(a, i) for a, i in zip(az, inc)])
    bend = np.array([math.acos(min(max(float(a @ b), -1.0), 1.0)) for a, b in zip(dirs[:-1], dirs[1:])])
    if bend.max() > 2.8:
        return  # arc not well defined
    if bend.max() > 1.0e-3:
        ctx.nontrivial()
    gaz, ginc = (az, inc) if s['rad'] else (st_[:, 1], st_[:, 2])
    angle = 'rad' if s['rad'] else 'dega'
    place = tuple(s['place'])
    datum = rqw.MdDatum(m, crs_uuid = crs.uuid, location = place, md_reference = 'rotary table')
    datum.create_xml()
    interp = None
    if s['interp']:
        f = rqo.WellboreFeature(m, feature_name = 'W')
        f.create_xml()
        interp = rqo.WellboreInterpretation(m, wellbore_feature = f, is_drilled = True)
        interp.create_xml()
    kw = dict(md_datum = datum, md_uom = s['uom'], angle_uom = angle, title = 'SURV', represented_interp = interp)
    frame = pd.DataFrame({'MD': mds, 'AZIM_GN': gaz, 'INCL': ginc, 'X': place[0], 'Y': place[1], 'Z': place[2]})
    if s['how'] in ('lists', 'arrays'):
        a = [list(map(float, x)) if s['how'] == 'lists' else x for x in (mds, gaz, ginc)]
        d = rqw.DeviationSurvey(m, measured_depths = a[0], azimuths = a[1], inclinations = a[2], first_station = place, is_final = True, **kw)
    elif s['how'] == 'frame':
        d = rqw.DeviationSurvey.from_data_frame(m, frame, **kw)
    elif s['how'] == 'named columns':
        names = {'MD': 'Depth', 'AZIM_GN': 'Azi', 'INCL': 'Inc', 'X': 'E', 'Y': 'N', 'Z': 'tvd'}
        d = rqw.DeviationSurvey.from_data_frame(m, frame.rename(columns = names), md_col = 'Depth', azimuth_col = 'Azi', inclination_col = 'Inc', x_col = 'E', y_col = 'N', z_col = 'tvd', **kw)
    else:
        name = ctx.path('survey.txt')
        with open(name, 'w') as f:
            f.write('# deviation\n')
            frame.to_csv(f, sep = ' ' if s['how'] == 'spaces' else ',', index = False)
        d = rqw.DeviationSurvey.from_ascii_file(m, name, space_separated_instead_of_csv = s['how'] == 'spaces', **kw)
    judge_survey(d, mds, gaz, ginc, s, place, 'made')
    d.write_hdf5()
    d.create_xml()
    if s['via'] == 'stored':
        m.store_epc()
        m = ctx.reopen(m)
        d = rqw.DeviationSurvey(m, uuid = d.uuid)
        judge_survey(d, mds, gaz, ginc, s, place, 'stored')
        ok(bu.matching_uuids(d.md_datum.uuid, datum.uuid), 'stored: datum')
        i = d.represented_interp if getattr(d, 'represented_interp', None) is not None else d.wellbore_interpretation
        eq(i is not None, s['interp'], 'stored: interpretation')
    if s['via'] == 'method':
        t = rqw.Trajectory(m, md_datum = datum, well_name = 'T')
        t.compute_from_deviation_survey(survey = d, set_tangent_vectors = s['tangents'])
    else:
        t = rqw.Trajectory(m, deviation_survey = d, well_name = 'T', set_tangent_vectors = s['tangents'])
    # arcs, in units of measured depth with z down
    pts = [np.zeros(3)]
    for k, b in enumerate(bend):
        l = mds[k + 1] - mds[k]
        mean = dirs[k] + dirs[k + 1]
        mean /= np.linalg.norm(mean)
        chord = l if b < 1.0e-4 else 2.0 * (l / b) * math.sin(0.5 * b)
        pts.append(pts[-1] + mean * chord)
    pts = np.array(pts)
    conv = METRES[s['uom']]
    f = np.array([conv / METRES[s['crs'].get('xy_units', 'm')]] * 2 + [conv / METRES[s['crs'].get('z_units', 'm')] * (1.0 if s['crs'].get('z_inc_down', True) else -1.0)])
    want = np.array(place) + pts * f
    judge_traj(t, want, mds, np.array(place), s['uom'], crs, s['crs'], 'T', 'from survey', expected_tangents(want, 'cube') if s['tangents'] else None, atol = 1.0e-4 + 1.0e-6 * mds[-1])
    # back again
    c = np.diff((np.asarray(t.control_points) - np.array(place)) / f, axis = 0)
    cur = dirs[0]
    for k in range(len(c)):
        u = c[k] / np.linalg.norm(c[k])
        cur = 2.0 * float(cur @ u) * u - cur
        arr_close(cur, dirs[k + 1], 1.0e-3, f'direction at station {k + 1}')
        cur = dirs[k + 1]
    t.write_hdf5()
    t.create_xml()
    m.store_epc()
    m = ctx.reopen(m)
    t2 = rqw.Trajectory(m, uuid = t.uuid)
    judge_traj(t2, np.asarray(t.control_points), mds, np.array(place), s['uom'], crs, s['crs'], 'T', 'from survey, stored', np.asarray(t.tangent_vectors) if s['tangents'] else None)
    ok(t2.deviation_survey is not None and bu.matching_uuids(t2.deviation_survey.uuid, d.uuid), 'survey of stored trajectory')
    judge_survey(t2.deviation_survey, mds, gaz, ginc, s, place, 'of stored trajectory')


def judge_survey(d, mds, gaz, ginc, s, place, what):
    eq(d.station_count, len(mds), f'{what}: stations')
    arr_close(np.asarray(d.measured_depths), mds, 1.0e-9 * mds[-1], f'{what}: depths')
    arr_close(np.asarray(d.azimuths), gaz, 1.0e-9, f'{what}: azimuths')
    arr_close(np.asarray(d.inclinations), ginc, 1.0e-9, f'{what}: inclinations')
    eq(bool(d.angles_in_degrees), not s['rad'], f'{what}: angles in degrees')
    eq(d.md_uom, s['uom'], f'{what}: uom')
    eq(d.title, 'SURV', f'{what}: title')
    eq(bool(d.is_final), True, f'{what}: final')
    arr_close(np.asarray(d.first_station, dtype = float), np.array(place), 1.0e-9, f'{what}: first station')


@check('spline', st.fixed_dictionaries(dict(path = PATH, sub = st.integers(1, 4), length = st.sampled_from([None, 20.0]), degrees = st.sampled_from([None, 5.0, 20.0]), tangents = st.booleans(), use = st.booleans(), keep = st.booleans(), interp = st.booleans())), quick = 150, thorough = 4000, rule = 'three or more knots')
def spline(s, ctx):
    if s['path']['wiggle'] > 1.0:
        s = dict(s, path = dict(s['path'], wiggle = 0.5))
    m = ctx.new_model('spline')
    crs = gl.make_crs(m)
    pts, mds = make_path(s['path'])
    if len(mds) > 2:
        ctx.nontrivial()
    datum = rqw.MdDatum(m, crs_uuid = crs.uuid, location = tuple(pts[0]))
    datum.create_xml()
    t = rqw.Trajectory(m, mds = mds, control_points = pts, md_datum = datum, length_uom = 'm', well_name = 'W', set_tangent_vectors = s['tangents'])
    if s['interp']:
        t.create_feature_and_interpretation()
    u = t.splined_trajectory('' if s['keep'] else 'SPLINE', min_subdivisions = s['sub'], max_segment_length = s['length'], max_degrees_per_knot = s['degrees'], use_tangents_if_present = s['use'], store_tangents_if_calculated = s['keep'], inherit_interpretation = s['interp'])
    cp = np.asarray(u.control_points)
    eq(u.knot_count, len(cp), 'knots')
    # passes through each of the points in turn, with enough points between
    where = []
    k = 0
    for p in pts:
        hit = [x for x in range(k, len(cp)) if np.linalg.norm(cp[x] - p) < 1.0e-6]
        ok(hit, 'spline does not pass through control point')
        where.append(hit[0])
        k = hit[0] + 1
    eq((where[0], where[-1]), (0, len(cp) - 1), 'ends of spline')
    for k, (a, b) in enumerate(zip(where[:-1], where[1:])):
        ok(b - a >= s['sub'], 'too few subdivisions')
        if s['length'] is not None:
            ok(b - a >= np.linalg.norm(pts[k + 1] - pts[k]) / s['length'] - 1.0e-6, 'segments too long')
    steps = np.linalg.norm(np.diff(cp, axis = 0), axis = 1)
    want = mds[0] + np.concatenate(([0.0], np.cumsum(steps)))
    arr_close(np.asarray(u.measured_depths), want, 1.0e-6, 'measured depths of spline')
    eq((float(u.start_md), float(u.finish_md)), (float(u.measured_depths[0]), float(u.measured_depths[-1])), 'ends in measured depth')
    arr_eq(np.asarray(t.control_points), pts, 'original changed')
    arr_eq(np.asarray(t.measured_depths), mds, 'original depths changed')
    eq(u.title, 'W' if s['keep'] else 'SPLINE', 'title')
    if s['interp']:
        ok(u.wellbore_interpretation is t.wellbore_interpretation, 'interpretation')
    # tangents: spline leaves each point in the direction of the tangent
    if s['tangents'] and s['use']:
        tv = np.asarray(t.tangent_vectors)
        arr_close(tv, expected_tangents(pts, 'cube'), 1.0e-6, 'tangents changed')
    elif s['keep']:
        tv = expected_tangents(pts, 'square')
        arr_close(np.asarray(t.tangent_vectors), tv, 1.0e-6, 'tangents kept')
    else:
        tv = expected_tangents(pts, 'square')
    if s['interp']:
        t.write_hdf5()
        t.create_xml()  # includes the feature and interpretation
    u.write_hdf5()
    u.create_xml()
    m.store_epc()
    m2 = ctx.reopen(m)
    v = rqw.Trajectory(m2, uuid = u.uuid)
    arr_eq(np.asarray(v.control_points), cp, 'stored spline')
    arr_eq(np.asarray(v.measured_depths), np.asarray(u.measured_depths), 'stored depths of spline')


@check('cells', st.fixed_dictionaries(dict(grid = gl.grid_specs(max_k = 4, max_ji = 4, undefined = False, inactive = False, pinch = False, faults = False, gaps = False), seed = seeds, mode = st.sampled_from(['none', 'linear', 'square', 'cube']), how = st.sampled_from(['list', 'wellspec']), n = st.integers(1, 5))), quick = 100, thorough = 2500, rule = 'more than one cell')
def cells(s, ctx):
    m = ctx.new_model('cells')
    crs = gl.make_crs(m)
    cp, active, defined, gaps = gl.corner_model(s['grid'])
    g = gl.build(m, s['grid'], crs.uuid)
    gl.store(g, title = 'GRID')
    g = grr.Grid(m, uuid = g.uuid)
    rng = np.random.default_rng(s['seed'])
    every = list(np.ndindex(*cp.shape[:3]))
    pick = [every[x] for x in rng.permutation(len(every))[:s['n']]]
    if len(pick) > 1:
        ctx.nontrivial()
    c = np.array([cp[x].reshape((-1, 3)).mean(axis = 0) for x in pick])
    pts = np.vstack(([[c[0, 0], c[0, 1], 0.0]], c, [[c[-1, 0], c[-1, 1], c[-1, 2] * 1.05]]))
    if np.linalg.norm(np.diff(pts, axis = 0), axis = 1).min() < 1.0e-3:
        return
    if not np.isfinite(expected_tangents(pts, 'square')).all():
        return
    if s['how'] == 'list':
        t = rqw.Trajectory(m, grid = g, cell_kji0_list = pick, spline_mode = s['mode'], length_uom = 'm', well_name = 'W')
    else:
        name = ctx.path('ws.dat')
        with open(name, 'w') as f:
            f.write('WELLSPEC OTHER\nIW JW L\n1 1 1\n\nWELLSPEC W\nIW JW L RADW\n')
            for k, j, i in pick:
                f.write(f'{i + 1} {j + 1} {k + 1} 0.25\n')
        t = rqw.Trajectory(m, grid = g, wellspec_file = name, spline_mode = s['mode'], length_uom = 'm', well_name = 'W')
    got = np.asarray(t.control_points)
    if s['mode'] == 'none':
        arr_close(got, pts, 1.0e-6, 'points')
    else:
        k = 0
        for p in pts:
            hit = [x for x in range(k, len(got)) if np.linalg.norm(got[x] - p) < 1.0e-5]
            ok(hit, f'trajectory misses centre of a cell at {p}')
            k = hit[0] + 1
    steps = np.linalg.norm(np.diff(got, axis = 0), axis = 1)
    arr_close(np.asarray(t.measured_depths), np.concatenate(([0.0], np.cumsum(steps))), 1.0e-6, 'measured depths')
    eq((float(t.start_md), t.knot_count, t.md_uom), (0.0, len(got), 'm'), 'start, knots and uom')
