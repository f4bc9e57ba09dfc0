"""property-based testing: batches of tasks run under generated worker counts, timings and outcomes, against running the tasks in turn

Random lists of tasks, each making a small model or failing, are run with no cluster, with threads and with processes, for
random numbers of workers and task durations, into new and existing models.  The success list, the uuids and the arrays in the
combined model are compared with those of the tasks.  The batch functions for meshes and blocked wells, and the wrapper for
finding faces, are compared with direct calls made one after another.
"""
import json
import os
import warnings
from pathlib import Path
import numpy as np
from hypothesis import strategies as st

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.fault as rqf
import resqpy.grid as grr
import resqpy.grid_surface as rqgs
import resqpy.lines as rql
import resqpy.multi_processing as rqmp
import resqpy.olio.uuid as bu
import resqpy.property as rqp
import resqpy.surface as rqs
import resqpy.well as rqw

from pbt.core import *
from pbt.lib.gen import *
from pbt.lib import mptasks

seeds = st.integers(0, 10 ** 6)
KINDS = ['points', 'line', 'mesh', 'times', 'feature']


def run_batch(s, function, kwargs, combo, ctx, **kw):
    """Calls the multiprocessing function with a number of workers."""
    old = os.environ.get('LOKY_MAX_CPU_COUNT')
    os.environ['LOKY_MAX_CPU_COUNT'] = str(s['workers'])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return rqmp.function_multiprocessing(function, kwargs, combo, None if s['mode'] == 'none' else 'cluster', backend = 'threading' if s['mode'] == 'none' else s['mode'], **kw)
    finally:
        if old is None:
            del os.environ['LOKY_MAX_CPU_COUNT']
        else:
            os.environ['LOKY_MAX_CPU_COUNT'] = old


def strs(us):
    return sorted(str(u) for u in us)


def check_objects(m, tasks, what):
    """Checks the objects of the tasks that succeeded."""
    for t in tasks:
        p, x, v = mptasks.arrays_for(t['seed'], t['n'])

        def one(typ, title):
            us = m.uuids(obj_type = typ, title = title)
            eq(len(us), 1, what + f': number of {typ} objects titled {title}')
            return us[0]

        def crs_ok(u):
            eq(float(rqc.Crs(m, uuid = u).x_offset), float(t['crs']), what + ': crs of object of task ' + t['name'])

        if 'points' in t['what']:
            ps = rqs.PointSet(m, uuid = one('PointSetRepresentation', 'points ' + t['name']))
            arr_close(ps.full_array_ref(), p, 0.0, what + ': points')
            crs_ok(ps.crs_uuid)
        if 'line' in t['what']:
            pl = rql.Polyline(m, uuid = one('PolylineRepresentation', 'line ' + t['name']))
            arr_close(pl.coordinates, p, 0.0, what + ': line')
            crs_ok(pl.crs_uuid)
        if 'mesh' in t['what']:
            mesh = rqs.Mesh(m, uuid = one('Grid2dRepresentation', 'mesh ' + t['name']))
            arr_close(mesh.full_array_ref(), x, 0.0, what + ': mesh')
            crs_ok(mesh.crs_uuid)
            us = m.uuids(obj_type = 'ContinuousProperty', title = 'prop ' + t['name'])
            n = 3 if 'times' in t['what'] else 1
            eq(len(us), n, what + ': number of properties')
            got = {}
            for u in us:
                prop = rqp.Property(m, uuid = u)
                got[prop.time_index()] = prop.array_ref()
                eq((prop.property_kind(), prop.uom()), ('my kind', 'm'), what + ': property kind and uom')
                ok(bu.matching_uuids(m.uuid_for_part(prop.collection.support_uuid and m.part(uuid = prop.collection.support_uuid)), mesh.uuid), what + ': support of property')
                if n == 3:
                    ok(m.part(uuid = prop.time_series_uuid()) is not None, what + ': time series of property')
            for ti in range(n):
                arr_close(got[ti if n == 3 else None], v + ti, 1.0e-5, what + f': property values {ti}')
        if 'feature' in t['what']:
            one('OrganizationFeature', 'feature ' + t['name'])


def check_model(m, good, notes, before, consolidate, what):
    produced = set(u for note in notes for u in note['uuids'])
    allowed = produced | set(before)
    uuids = [u for u in strs(m.uuids()) if m.type_of_part(m.part(uuid = u), strip_obj = True) not in ('EpcExternalPartReference', 'PropertyKind')]
    eq(len(uuids), len(set(uuids)), what + ': repeated uuids')
    ok(set(uuids) <= allowed, what + ': objects that no successful task lists')
    missing = [u for u in allowed if u not in uuids]
    if not consolidate:
        eq(missing, [], what + ': missing objects')
    offsets = set(t['crs'] for t in good)
    crs_offsets = [float(rqc.Crs(m, uuid = u).x_offset) for u in m.uuids(obj_type = 'LocalDepth3dCrs')]
    ok(set(float(o) for o in offsets) <= set(crs_offsets), what + ': crs missing')
    times = sum('mesh' in t['what'] and 'times' in t['what'] for t in good)
    if consolidate:
        eq(len(crs_offsets), len(set(crs_offsets)), what + ': equivalent crs objects')
        eq(len(m.uuids(obj_type = 'TimeSeries')), min(times, 1), what + ': time series objects')
    eq(len(m.uuids(obj_type = 'PropertyKind')), min(sum('mesh' in t['what'] for t in good), 1) if consolidate else len(m.uuids(obj_type = 'PropertyKind')), what + ': property kinds')
    eq(len([t for t in m.titles() if t and t.startswith('unlisted')]), 0, what + ': objects not listed in results')


tasks_st = st.lists(st.fixed_dictionaries(dict(seed = seeds, n = st.integers(1, 4), what = st.lists(st.sampled_from(KINDS), min_size = 1, max_size = 5, unique = True), crs = st.sampled_from([0, 100]), outcome = st.sampled_from(['fail', 'ok', 'ok', 'ok']), form = st.sampled_from(['last', 'uuid', 'str']), delay = st.sampled_from([0, 0, 1, 3]))), min_size = 0, max_size = 6)
batch_st = dict(tasks = tasks_st, workers = st.integers(1, 5), consolidate = st.booleans(), existing = st.booleans(), second = st.booleans(), require = st.booleans(), clean = st.booleans(), path = st.booleans(), new_dir = st.booleans(), seed = seeds)


def batch(s, ctx):
    tasks = [dict(t, name = f't{i}') for i, t in enumerate(s['tasks'])]
    if len(tasks) > 1 and any(t['outcome'] == 'fail' for t in tasks) and any(t['outcome'] == 'ok' for t in tasks):
        ctx.nontrivial()
    side = ctx.path('side')
    tmp = ctx.path('work')
    os.makedirs(side)
    if not s['new_dir']:
        os.makedirs(tmp)
    combo = ctx.path('combo.epc')
    before, old = [], []
    if s['existing']:
        m = rq.new_model(combo, quiet = True)
        old = [dict(name = 'old', seed = s['seed'], n = 2, what = KINDS, crs = 100, outcome = 'ok')]
        before = strs(mptasks.make(m, 'old', s['seed'], 2, KINDS, 100))
        m.store_epc(quiet = True)
        m.h5_release()
    groups = [tasks]
    if s['second'] and len(tasks) > 1:
        groups = [tasks[:len(tasks) // 2], tasks[len(tasks) // 2:]]
    done = []
    for g in groups:
        kwargs = [dict(name = t['name'], seed = t['seed'], n = t['n'], what = t['what'], crs_offset = t['crs'], outcome = t['outcome'], form = t['form'], delay = 0.0 if s['mode'] == 'none' else 0.02 * t['delay'], side = side) for t in g]
        wanted = [t['outcome'] == 'ok' for t in g]
        kw = dict(consolidate = s['consolidate'], require_success = s['require'], tmp_dir_path = Path(tmp) if s['path'] else tmp, clean_up = s['clean'])
        if s['require'] and not all(wanted):
            ok(raises(lambda: run_batch(s, mptasks.task, kwargs, combo, ctx, **kw), Exception), 'failure of a task should raise an exception')
            return
        got = run_batch(s, mptasks.task, kwargs, combo, ctx, **kw)
        eq([bool(v) for v in got], wanted, 'success list')
        done += [t for t in g if t['outcome'] == 'ok']
        left = os.listdir(tmp)
        if s['clean']:
            eq(left, [], 'temporary directories')
        else:
            ok(len(left) > 0, 'temporary directory was removed')
    notes = []
    for f in os.listdir(side):
        with open(os.path.join(side, f)) as fp:
            notes.append(json.load(fp))
    eq(sorted(n['name'] for n in notes), sorted(t['name'] for t in tasks), 'tasks run')
    for g in groups:
        for i, t in enumerate(g):
            eq([n['index'] for n in notes if n['name'] == t['name']], [i], 'index of task ' + t['name'])
    m = ctx.open_model(combo)
    check_objects(m, old + done, 'combined')
    check_model(m, old + done, notes, before, s['consolidate'], 'combined')


@check('threads', st.fixed_dictionaries(dict(batch_st, mode = st.sampled_from(['threading', 'none']))),
       quick = 80, rule = 'some tasks succeed and some fail')
def threads(s, ctx):
    """Batches of tasks run in turn and by threads."""
    batch(s, ctx)


@check('processes', st.fixed_dictionaries(dict(batch_st, mode = st.just('loky'))),
       quick = 12, thorough = 150, rule = 'some tasks succeed and some fail')
def processes(s, ctx):
    """Batches of tasks run by processes."""
    s = dict(s, workers = 1 + s['workers'] % 3)
    batch(s, ctx)


@check('shared', st.fixed_dictionaries(dict(n = st.integers(2, 5), workers = st.integers(1, 4), mode = st.sampled_from(['threading', 'none']), fails = st.booleans(), seed = seeds)),
       quick = 20, rule = 'every case')
def shared(s, ctx):
    """The same arguments used for several tasks."""
    ctx.nontrivial()
    side = ctx.path('side')
    os.makedirs(side)
    kw = dict(name = 'same', seed = s['seed'], n = 2, what = ['points'], crs_offset = 0, outcome = 'fail' if s['fails'] else 'ok', form = 'uuid', delay = 0.0, side = side)
    got = run_batch(s, mptasks.task, [kw] * s['n'], ctx.path('combo.epc'), ctx, tmp_dir_path = ctx.tmp, consolidate = True)
    eq([bool(v) for v in got], [not s['fails']] * s['n'], 'success list')
    eq(len([f for f in os.listdir(ctx.tmp) if f.startswith('tmp_')]), 0, 'temporary directories')
    idx = []
    for f in os.listdir(side):
        with open(os.path.join(side, f)) as fp:
            idx.append(json.load(fp)['index'])
    eq(sorted(idx), list(range(s['n'])), 'indices of tasks')
    m = ctx.open_model(ctx.path('combo.epc'))
    eq(len(m.uuids(obj_type = 'PointSetRepresentation')), 0 if s['fails'] else s['n'], 'number of point sets')


def regular_grid(m, s):
    crs = rqc.Crs(m, title = 'grid crs', x_offset = 1000.0, z_offset = 10.0 if s['off'] else 0.0)
    crs.create_xml()
    grid = grr.RegularGrid(m, extent_kji = (s['nk'], s['nj'], s['ni']), dxyz = (10.0, 20.0, 5.0), crs_uuid = crs.uuid, title = 'grid')
    grid.create_xml()
    return crs, grid


grids = dict(nk = st.integers(1, 3), nj = st.integers(2, 5), ni = st.integers(2, 5), off = st.booleans(), seed = seeds, workers = st.integers(1, 5), mode = st.sampled_from(['none']), existing = st.booleans())


@check('meshes', st.fixed_dictionaries(dict(grids, n = st.integers(1, 5), strs = st.booleans())),
       quick = 40, rule = 'more than one property')
def meshes(s, ctx):
    """Meshes made from column properties in batches."""
    rng = np.random.default_rng(s['seed'])
    m = ctx.new_model('g')
    crs, grid = regular_grid(m, s)
    if s['n'] > 1:
        ctx.nontrivial()
    props, values = [], []
    for i in range(s['n']):
        a = rng.uniform(0.0, 100.0, (s['nj'], s['ni']))
        kind = [('depth', 'm'), ('depth', 'ft'), ('porosity', 'm3/m3')][rng.integers(3)]
        p = rqp.Property.from_array(m, a, source_info = 'test', keyword = f'p{i}', property_kind = kind[0], support_uuid = grid.uuid, discrete = False, uom = kind[1], indexable_element = 'columns')
        props.append(str(p.uuid) if s['strs'] else p.uuid)
        values.append((a, kind[1]))
    m.store_epc()
    combo = ctx.path('combo.epc')
    # note: no worker here is the meaning of no cluster; batches are as for n workers
    n_batch = min(s['workers'], 5)
    got = rqmp.mesh_from_regular_grid_column_property_batch(m.epc_file, grid.uuid, props, combo, None, n_batch, tmp_dir_path = ctx.tmp)
    eq([bool(v) for v in got], [True] * n_batch, 'success list')
    m1 = ctx.open_model(m.epc_file)
    m2 = ctx.open_model(combo)
    eq(len(m2.uuids(obj_type = 'Grid2dRepresentation')), s['n'], 'number of meshes')
    for i, pu in enumerate(props):
        direct = rqs.Mesh.from_regular_grid_column_property(m1, grid.uuid, pu)
        us = m2.uuids(obj_type = 'Grid2dRepresentation', title = direct.title)
        eq(len(us), 1, 'meshes titled ' + str(direct.title))
        mesh = rqs.Mesh(m2, uuid = us[0])
        eq((mesh.flavour, mesh.nj, mesh.ni), (direct.flavour, s['nj'], s['ni']), 'mesh')
        arr_close(mesh.full_array_ref(), direct.full_array_ref(), 1.0e-5, 'points of mesh')
        arr_close(mesh.full_array_ref()[..., 2], values[i][0], 1.0e-4, 'values of mesh')
        c1, c2 = rqc.Crs(m1, uuid = direct.crs_uuid), rqc.Crs(m2, uuid = mesh.crs_uuid)
        ok(c1.is_equivalent(c2), 'crs of mesh')
        eq(mesh.extra_metadata, direct.extra_metadata, 'extra metadata of mesh')


@check('wells', st.fixed_dictionaries(dict(grids, n = st.integers(1, 5), outside = st.booleans(), apart = st.booleans())),
       quick = 40, rule = 'more than one well')
def wells(s, ctx):
    """Blocked wells made from trajectories in batches."""
    rng = np.random.default_rng(s['seed'])
    m = ctx.new_model('g')
    crs, grid = regular_grid(m, s)
    m.store_epc()
    if s['n'] > 1:
        ctx.nontrivial()
    mt = m
    tcrs = crs
    if s['apart']:
        mt = ctx.new_model('t')
        tcrs = rqc.Crs(mt, title = 'grid crs', x_offset = 1000.0, z_offset = 10.0 if s['off'] else 0.0)
        tcrs.create_xml()
    trajs, good = [], []
    lx, ly, lz = 10.0 * s['ni'], 20.0 * s['nj'], 5.0 * s['nk']
    for i in range(s['n']):
        out = s['outside'] and rng.random() < 0.4
        x, y = rng.uniform(0.15, 0.85, (2, 2)) * np.array([[lx], [ly]])
        if out:
            x = x + 10 * lx
        cp = np.array([(x[0], y[0], -7.3), (x[1], y[1], lz + 3.1)])
        datum = rqw.MdDatum(mt, crs_uuid = tcrs.uuid, location = tuple(cp[0]), title = f'datum {i}')
        datum.create_xml()
        traj = rqw.Trajectory(mt, crs_uuid = tcrs.uuid, md_datum = datum, mds = np.array([0.0, np.linalg.norm(cp[1] - cp[0])]), control_points = cp, length_uom = 'm', well_name = f'well {i}', set_tangent_vectors = True)
        traj.write_hdf5()
        traj.create_xml()
        trajs.append(traj.uuid)
        good.append(not out)
    mt.store_epc()
    combo = ctx.path('combo.epc')
    nb = s['workers']
    n = s['n']
    got = rqmp.blocked_well_from_trajectory_batch(m.epc_file, grid.uuid, mt.epc_file, trajs, combo, None, nb, tmp_dir_path = ctx.tmp)
    eq([bool(v) for v in got], [all(good[b * n // nb:(b + 1) * n // nb]) for b in range(nb)], 'success list')
    m1 = ctx.open_model(m.epc_file)
    mt1 = m1 if mt is m else ctx.open_model(mt.epc_file)
    m2 = ctx.open_model(combo)
    eq(len(m2.uuids(obj_type = 'BlockedWellboreRepresentation')), sum(good), 'number of blocked wells')
    if not any(good):
        return
    eq(len(m2.uuids(obj_type = 'IjkGridRepresentation')), 1, 'number of grids')
    g1 = grr.any_grid(m1, uuid = grid.uuid)
    for tu, g in zip(trajs, good):
        traj = rqw.Trajectory(mt1, uuid = tu)
        us = [u for u in m2.uuids(obj_type = 'BlockedWellboreRepresentation') if bu.matching_uuids(rqw.BlockedWell(m2, uuid = u).trajectory.uuid, tu)]
        eq(len(us), 1 if g else 0, 'blocked wells for trajectory')
        if not g:
            continue
        direct = rqw.BlockedWell(mt1, grid = g1, trajectory = traj)
        bw = rqw.BlockedWell(m2, uuid = us[0])
        eq((bw.cell_count, bw.node_count), (direct.cell_count, direct.node_count), 'counts')
        arr_eq(bw.cell_indices, direct.cell_indices, 'cells')
        arr_close(bw.node_mds, direct.node_mds, 1.0e-4, 'depths')
        arr_eq(bw.face_pair_indices, direct.face_pair_indices, 'faces')
        arr_eq(bw.grid_indices, direct.grid_indices, 'grid indices')
        eq(rqw.well_name(bw), rqw.well_name(direct), 'well name')
        arr_close(bw.trajectory.control_points, traj.control_points, 1.0e-5, 'trajectory')


PROPS = ['triangle', 'depth', 'offset', 'grid shadow', 'grid bisector']


@check('faces', st.fixed_dictionaries(dict(grids, n = st.integers(1, 3), props = st.lists(st.sampled_from(PROPS), max_size = 5, unique = True), miss = st.booleans(), realization = st.booleans())),
       quick = 24, rule = 'more than one surface and some properties')
def faces(s, ctx):
    """Faces found to represent surfaces, in batches."""
    rng = np.random.default_rng(s['seed'])
    m = ctx.new_model('g')
    crs, grid = regular_grid(m, s)
    if s['n'] > 1 and s['props']:
        ctx.nontrivial()
    lx, ly, lz = 10.0 * s['ni'], 20.0 * s['nj'], 5.0 * s['nk']
    surfs, good = [], []
    for i in range(s['n']):
        miss = s['miss'] and rng.random() < 0.5
        z = rng.uniform(0.2, 0.8, 4) * lz
        p = np.array([(-3.0, -3.0, z[0]), (lx + 3.0, -3.0, z[1]), (lx + 3.0, ly + 3.0, z[2]), (-3.0, ly + 3.0, z[3])])
        if rng.random() < 0.5:  # a steep surface
            x = rng.uniform(0.2, 0.8, 2) * lx
            p = np.array([(x[0], -3.0, -3.0), (x[0] + 1.0, ly + 3.0, -3.0), (x[1] + 1.0, ly + 3.0, lz + 3.0), (x[1], -3.0, lz + 3.0)])
        if miss:
            p[:, 0] += 50.0 * lx
        su = rqs.Surface(m, crs_uuid = crs.uuid, title = f'surf {i}')
        su.set_from_triangles_and_points(np.array([(0, 1, 2), (0, 2, 3)]), p)
        su.write_hdf5()
        su.create_xml()
        surfs.append(su.uuid)
    m.store_epc()
    m1 = ctx.open_model(m.epc_file)
    g1 = grr.RegularGrid(m1, uuid = grid.uuid)
    direct = []
    for i, u in enumerate(surfs):
        r = rqgs.find_faces_to_represent_surface_regular_optimised(g1, rqs.Surface(m1, uuid = u), f'fault {i}', return_properties = s['props'] or None)
        direct.append(r if isinstance(r, tuple) else (r, {}))
    kwargs = [dict(use_index_as_realisation = s['realization'], grid_epc = m.epc_file, grid_uuid = grid.uuid, surface_epc = m.epc_file, surface_uuid = u, name = f'fault {i}', return_properties = s['props'] or None) for i, u in enumerate(surfs)]
    combo = ctx.path('combo.epc')
    got = run_batch(s, rqmp.find_faces_to_represent_surface_regular_wrapper, kwargs, combo, ctx, tmp_dir_path = ctx.tmp)
    eq([bool(v) for v in got], [d[0] is not None for d in direct], 'success list')
    m2 = ctx.open_model(combo)
    eq(len(m2.uuids(obj_type = 'GridConnectionSetRepresentation')), sum(d[0] is not None for d in direct), 'number of connection sets')
    eq(len(m2.uuids(obj_type = 'IjkGridRepresentation')), 1, 'number of grids')  # present even for surfaces which miss the grid
    for i, (gcs1, props) in enumerate(direct):
        us = m2.uuids(obj_type = 'GridConnectionSetRepresentation', title = f'fault {i}')
        eq(len(us), 1 if gcs1 is not None else 0, 'connection sets for surface')
        if not us:
            continue
        gcs = rqf.GridConnectionSet(m2, uuid = us[0])
        gcs.cache_arrays()
        arr_eq(gcs.cell_index_pairs, gcs1.cell_index_pairs, 'cell pairs')
        arr_eq(gcs.face_index_pairs, gcs1.face_index_pairs, 'face pairs')
        pc = rqp.PropertyCollection(support = gcs)
        g2 = grr.RegularGrid(m2, uuid = grid.uuid)
        gpc = rqp.PropertyCollection(support = g2)
        for name in s['props']:
            if name not in props:
                continue
            c = gpc if name.startswith('grid') else pc
            parts = [p for p in c.parts() if c.citation_title_for_part(p) == f'surf {i} {name}']
            eq(len(parts), 1, 'parts for ' + name)
            a = props[name]
            if name == 'grid bisector':
                a = a[0]
            if name == 'depth':
                a = a + (10.0 if s['off'] else 0.0)
            arr_close(np.asarray(c.cached_part_array_ref(parts[0]), dtype = float), np.asarray(a, dtype = float), 1.0e-4, name + ' values')
            eq(c.realization_for_part(parts[0]), i if s['realization'] else None, 'realization of ' + name)
