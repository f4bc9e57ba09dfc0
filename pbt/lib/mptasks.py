"""Tasks for the multi-processing checks; importable by worker processes."""
import json
import os
import time
import uuid as uu
import numpy as np

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.lines as rql
import resqpy.organize as rqo
import resqpy.property as rqp
import resqpy.surface as rqs
import resqpy.time_series as rqts


def arrays_for(seed, n):
    rng = np.random.default_rng(seed)
    return rng.uniform(-100.0, 100.0, (n + 2, 3)), rng.uniform(0.0, 50.0, (2, n + 1, 3)), rng.uniform(0.0, 1.0, (2, n + 1))


def make(model, name, seed, n, what, crs_offset):
    """Adds objects for a task; returns list of uuids."""
    crs = rqc.Crs(model, title = 'crs', x_offset = float(crs_offset))
    crs.create_xml()
    us = [crs.uuid]
    p, x, v = arrays_for(seed, n)
    if 'points' in what:
        ps = rqs.PointSet(model, points_array = p, crs_uuid = crs.uuid, title = 'points ' + name)
        ps.write_hdf5()
        ps.create_xml()
        us.append(ps.uuid)
    if 'line' in what:
        pl = rql.Polyline(model, set_coord = p, is_closed = False, set_crs = crs.uuid, title = 'line ' + name)
        pl.write_hdf5()
        pl.create_xml()
        us.append(pl.uuid)
    if 'mesh' in what:
        mesh = rqs.Mesh(model, xyz_values = x, crs_uuid = crs.uuid, title = 'mesh ' + name)
        mesh.write_hdf5()
        mesh.create_xml()
        us.append(mesh.uuid)
        ts = None
        if 'times' in what:
            ts = rqts.TimeSeries(model, first_timestamp = '2024-08-23', quarterly = 2, title = 'times')
            ts.create_xml()
            us.append(ts.uuid)
        for ti in range(3 if ts is not None else 1):
            prop = rqp.Property.from_array(model, cached_array = v + ti, source_info = 'task', keyword = f'prop {name}', support_uuid = mesh.uuid, property_kind = 'my kind', find_local_property_kind = True, discrete = False, uom = 'm', indexable_element = 'nodes', time_series_uuid = None if ts is None else ts.uuid, time_index = None if ts is None else ti)
            us.append(prop.uuid)
    if 'feature' in what:
        f = rqo.OrganizationFeature(model, feature_name = 'feature ' + name, organization_kind = 'structural')
        f.create_xml()
        us.append(f.uuid)
    return us


def task(index, parent_tmp_dir, name, seed, n, what, crs_offset, outcome, form, delay, side):
    """A task for multi-processing."""
    if delay:
        time.sleep(delay)
    note = dict(name = name, index = index, pid = os.getpid(), uuids = [])
    epc = None
    uuids = []
    if outcome != 'fail':
        d = os.path.join(parent_tmp_dir, str(uu.uuid4()))
        os.makedirs(d)
        epc = os.path.join(d, 'task.epc')
        model = rq.new_model(epc, quiet = True)
        uuids = make(model, name, seed, n, what, crs_offset)
        note['uuids'] = [str(u) for u in uuids]
        # an object which is not listed in the result
        f = rqo.OrganizationFeature(model, feature_name = 'unlisted ' + name, organization_kind = 'structural')
        f.create_xml()
        model.store_epc(quiet = True)
        model.h5_release()
        if form == 'str':
            uuids = [str(u) for u in uuids]
        elif form == 'last':  # the referenced objects being included anyway
            uuids = uuids[::-1]
    with open(os.path.join(side, str(uu.uuid4()) + '.json'), 'w') as f:
        json.dump(note, f)
    return index, outcome == 'ok', epc, uuids
