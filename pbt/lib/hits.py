"""Faces of cells and their crossings by many part lines, worked out from corner points."""
import numpy as np
import pandas as pd

import resqpy.model as rq
import resqpy.well as rqw


def face_quad(cp, kji, axis, pol):
    """Corners of a face in cyclic order, (4, 3)."""
    c = np.take(cp[tuple(kji)], pol, axis = axis)
    return np.array([c[0, 0], c[0, 1], c[1, 1], c[1, 0]])


def quad_tris(q):
    m = q.mean(axis = 0)
    return [np.array([q[x], q[(x + 1) % 4], m]) for x in range(4)]


def splits(cp):
    """Columns with a fault on their plus j and plus i sides."""
    j = np.any(np.abs(cp[:, :-1, :, :, 1, :, :] - cp[:, 1:, :, :, 0, :, :]) > 1.0e-6, axis = (0, 3, 4, 5))
    i = np.any(np.abs(cp[:, :, :-1, :, :, 1, :] - cp[:, :, 1:, :, :, 0, :]) > 1.0e-6, axis = (0, 3, 4, 5))
    return j, i


def skin_faces(cp, gaps):
    """List of (kji, axis, polarity) for every face of the skin: outer, gap and fault faces."""
    nk, nj, ni = cp.shape[:3]
    out = []
    for j in range(nj):
        for i in range(ni):
            out += [((0, j, i), 0, 0), ((nk - 1, j, i), 0, 1)]
            for k in gaps:
                out += [((k, j, i), 0, 1), ((k + 1, j, i), 0, 0)]
    for k in range(nk):
        for i in range(ni):
            out += [((k, 0, i), 1, 0), ((k, nj - 1, i), 1, 1)]
        for j in range(nj):
            out += [((k, j, 0), 2, 0), ((k, j, ni - 1), 2, 1)]
    fj, fi = splits(cp)
    for k in range(nk):
        for j, i in np.argwhere(fj):
            out += [((k, int(j), int(i)), 1, 1), ((k, int(j) + 1, int(i)), 1, 0)]
        for j, i in np.argwhere(fi):
            out += [((k, int(j), int(i)), 2, 1), ((k, int(j), int(i) + 1), 2, 0)]
    return out


def cross(p0, p1, tri):
    """(fraction along p0 to p1 or None, slack)."""
    a, e1, e2 = tri[0], tri[1] - tri[0], tri[2] - tri[0]
    d = p1 - p0
    n = np.cross(e1, e2)
    size = np.linalg.norm(e1) * np.linalg.norm(e2)
    if np.linalg.norm(n) <= 1.0e-9 * max(size, 1.0e-30):
        return None, 1.0
    det = -float(d @ n)
    if abs(det) <= 1.0e-9 * np.linalg.norm(d) * np.linalg.norm(n):
        return None, 1.0
    ao = p0 - a
    dao = np.cross(ao, d)
    u, v, f = float(dao @ e2) / det, -float(dao @ e1) / det, float(ao @ n) / det
    slack = min(u, v, 1.0 - u - v)
    if not -0.001 <= f <= 1.001:
        return None, 1.0
    if slack < -1.0e-6:
        return None, 1.0
    return f, min(slack, f, 1.0 - f)


def hits_of(points, faces, quads, start = 0, start_xyz = None):
    """Sorted list of (segment, fraction, xyz, face index, slack to edge of face) of crossings."""
    out = []
    for seg in range(start, len(points) - 1):
        p0 = points[seg] if seg > start or start_xyz is None else start_xyz
        p1 = points[seg + 1]
        for x, q in enumerate(quads):
            lo, hi = q.min(axis = 0), q.max(axis = 0)
            if (np.maximum(p0, p1) < lo - 1.0e-6).any() or (np.minimum(p0, p1) > hi + 1.0e-6).any():
                continue
            for tri in quad_tris(q):
                f, slack = cross(p0, p1, tri)
                if f is not None:
                    out.append((seg, f, p0 + f * (p1 - p0), x, slack))
    return sorted(out, key = lambda h: h[:2])


def make_points(s, cp, rng):
    lo, hi = cp.reshape((-1, 3)).min(axis = 0), cp.reshape((-1, 3)).max(axis = 0)
    size = np.maximum(hi - lo, 1.0)
    mid = 0.5 * (lo + hi)
    out = []
    if s['start'] == 'in':
        c = tuple(int(rng.integers(0, x)) for x in cp.shape[:3])
        out.append(cp[c].reshape((-1, 3)).mean(axis = 0) + 0.01 * size * (rng.random(3) - 0.5))
    else:
        d = rng.normal(size = 3)
        if s['style'] == 'down':
            d[:2] *= 0.3
        elif s['style'] == 'flat':
            d[2] *= 0.2
        d /= np.linalg.norm(d / size)
        out.append(mid + d * (1.0 + rng.random()))
    for _ in range(s['knots'] - 1):
        out.append(mid + size * (rng.random(3) - 0.5) * 1.4)
    return np.array(out)


def make_trajectory(m, crs, pts, title = 'W'):
    datum = rqw.MdDatum(m, crs_uuid = crs.uuid, location = tuple(pts[0]), md_reference = 'kelly bushing')
    datum.create_xml()
    md = np.concatenate(([0.0], np.cumsum(np.linalg.norm(np.diff(pts, axis = 0), axis = 1))))
    df = pd.DataFrame({'MD': md, 'X': pts[:, 0], 'Y': pts[:, 1], 'Z': pts[:, 2]})
    return rqw.Trajectory(m, md_datum = datum, data_frame = df, length_uom = 'm', well_name = title, set_tangent_vectors = False)
