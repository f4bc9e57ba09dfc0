"""B01: box utilities against explicit sets of cells."""
import numpy as np
from pbt.core import check, st, ok, eq, arr_eq, fail, raises, refuses
from pbt.lib.gen import boxes, seeds
import resqpy.olio.box_utilities as bx


def A(b):
    return np.array(b, dtype = int)


def cells(b):
    b = np.asarray(b)
    return {(k, j, i) for k in range(b[0, 0], b[1, 0] + 1) for j in range(b[0, 1], b[1, 1] + 1)
            for i in range(b[0, 2], b[1, 2] + 1)}


def bounding(s):
    a = np.array(sorted(s))
    return np.array([a.min(axis = 0), a.max(axis = 0)])


@st.composite
def single_cases(draw):
    b = draw(boxes(-1, 4, 5) if draw(st.booleans()) else boxes(0, 4, 5))
    near = draw(st.booleans())
    c = [draw(st.integers(b[0][d], b[1][d]) if near or draw(st.booleans()) else st.integers(b[0][d] - 2, b[1][d] + 2)) for d in range(3)]
    ext = [draw(st.integers(max(1, b[1][d] + (1 if near else -1)), max(1, b[1][d]) + 2)) for d in range(3)]
    return dict(box = b, cell = c, ext = ext)


@check('single', single_cases(), quick = 1500, thorough = 40000,
       rule = 'random boxes, cells and host extents; non-trivial when the box has more than one cell')
def single(spec, ctx):
    b, c, ext = A(spec['box']), A(spec['cell']), A(spec['ext'])
    b_in = b.copy()
    s = cells(b)
    arr_eq(bx.extent_of_box(b), [len({x[d] for x in s}) for d in range(3)], 'extent_of_box')
    eq(int(bx.volume_of_box(b)), len(s), 'volume_of_box')
    cc = tuple(int(x) for x in bx.central_cell(b))
    ok(cc in s, 'central cell not in box', cc)
    for d in range(3):
        lo, hi = cc[d] - b[0, d], b[1, d] - cc[d]
        ok(abs(lo - hi) <= 1, 'central cell is not central', cc)
    eq(bool(bx.cell_in_box(c, b)), tuple(c.tolist()) in s, 'cell_in_box')
    inside = all(0 <= x[d] < ext[d] for x in (tuple(b[0]), tuple(b[1])) for d in range(3))
    eq(bool(bx.valid_box(b, tuple(ext.tolist()))), inside, 'valid_box')
    ctx.label('valid' if inside else 'not valid')
    for bad in (b[::-1].copy() if np.any(b[0] != b[1]) else None, b.reshape(6), b.astype(float)):
        if bad is not None:
            eq(bool(bx.valid_box(bad, tuple(ext.tolist()))), False, 'valid_box of malformed box')
    eq(bool(bx.valid_box(b, tuple(ext.tolist()[:2]))), False, 'valid_box with 2D extent')
    sc = bx.single_cell_box(c)
    eq(cells(sc), {tuple(c.tolist())}, 'single_cell_box')
    fe = bx.full_extent_box0(ext)
    eq(cells(fe), {(k, j, i) for k in range(ext[0]) for j in range(ext[1]) for i in range(ext[2])}, 'full_extent_box0')
    ok(bx.valid_box(fe, tuple(ext.tolist())), 'full extent box is not valid')
    # local <-> parent cell indices
    for base in (0, 1):
        local = bx.local_box_cell_from_parent_cell(b, c, based_0_or_1 = base)
        if tuple(c.tolist()) in s:
            arr_eq(local, c - b[0] + base, 'local_box_cell_from_parent_cell')
            ctx.label('cell in box')
        else:
            ok(local is None, 'local cell found for a cell outside the box', local)
        seen = set()
        for x in s:
            l = bx.local_box_cell_from_parent_cell(b, A(x), based_0_or_1 = base)
            ok(l is not None, 'cell of box not found', x)
            ok(np.all(l >= base) and np.all(l < bx.extent_of_box(b) + base), 'local index out of range', l)
            seen.add(tuple(l.tolist()))
            arr_eq(bx.parent_cell_from_local_box_cell(b, l, based_0_or_1 = base), x, 'parent_cell_from_local_box_cell')
        eq(len(seen), len(s), 'local indices are not distinct')
    # text
    for sep in (' ', ':'):
        t = bx.spaced_string_iijjkk1_for_box_kji0(b, colon_separator = sep)
        w = t.replace(':', ' ').split()
        eq([int(x) for x in w], [v + 1 for d in (2, 1, 0) for v in (int(b[0, d]), int(b[1, d]))], 'spaced string')
        arr_eq(bx.box_kji0_from_words_iijjkk1(w + ['17']), b, 'box from words')
    t = bx.string_iijjkk1_for_box_kji0(b)
    eq(t, '[' + ', '.join(f'{b[0, d] + 1}:{b[1, d] + 1}' for d in (2, 1, 0)) + ']', 'string for box')
    w = t[1:-1].replace(':', ' ').replace(',', ' ').split()
    arr_eq(bx.box_kji0_from_words_iijjkk1(w), b, 'box from words of string')
    with refuses('words with min above max'):
        bx.box_kji0_from_words_iijjkk1([str(b[1, 2] + 2), str(b[1, 2] + 1)] + w[2:])
    with refuses('too few words'):
        bx.box_kji0_from_words_iijjkk1(w[:5])
    arr_eq(b, b_in, 'box argument was modified')
    ctx.nontrivial(len(s) > 1)


@check('pair', st.tuples(boxes(0, 5, 5), boxes(0, 5, 5)), quick = 2500, thorough = 60000, shards = 2,
       rule = 'pairs of boxes in a small space; non-trivial when they share a cell')
def pair(spec, ctx):
    a, b = A(spec[0]), A(spec[1])
    a_in, b_in = a.copy(), b.copy()
    sa, sb = cells(a), cells(b)
    both = sa & sb
    arr_eq(bx.union(a, b), bounding(sa | sb), 'union')
    ok(bx.union(None, None) is None, 'union of none')
    for u in (bx.union(a, None), bx.union(None, a)):
        arr_eq(u, a, 'union with None')
        u[0, 0] -= 1
        arr_eq(a, a_in, 'union with None shares data with its argument')
    eq(bool(bx.boxes_overlap(a, b)), bool(both), 'boxes_overlap')
    eq(bool(bx.boxes_overlap(a.astype(float), b.astype(float))), bool(both), 'boxes_overlap (float)')
    trim = np.full((2, 3), 99, dtype = int)
    r = bx.overlapping_boxes(a, b, trim)
    eq(bool(r), bool(both), 'overlapping_boxes')
    if not both:
        ok(np.all(trim == 0), 'trim box not zeroed', trim)
    else:
        ts = cells(trim)
        ok(len(ts) > 0 and ts <= sb, 'trim box is not a subset of the new box', trim)
        left = sb - ts
        ok(not (left & sa), 'overlap remains after trimming', trim)
        full = [d for d in range(3) if all(a[0, d] <= v <= a[1, d] for v in (b[0, d], b[1, d]))]
        # least loss: removing from either end in one direction, so that a box remains
        best = len(sb)
        for d in range(3):
            for keep in ({x for x in sb if x[d] < a[0, d]}, {x for x in sb if x[d] > a[1, d]}):
                if keep:
                    best = min(best, len(sb) - len(keep))
        if left:
            bl = bounding(left)
            eq(len(cells(bl)), len(left), 'what remains of the new box is not a box')
        eq(len(ts), best, 'trim box is not the smallest')
        ctx.label(f'covered in {len(full)} axes')
        if left:
            mask = np.random.default_rng(len(sa) * 31 + len(sb)).random(tuple(bx.extent_of_box(b))) < 0.5
            b2 = b.copy()
            m2 = bx.trim_box_by_box_returning_new_mask(b2, trim, mask.copy())
            arr_eq(b2, bounding(left), 'box after trimming')
            l0 = bounding(left) - b[0]
            arr_eq(m2, mask[l0[0, 0]:l0[1, 0] + 1, l0[0, 1]:l0[1, 1] + 1, l0[0, 2]:l0[1, 2] + 1], 'mask after trimming')
            ctx.label('trimmed')
    arr_eq(a, a_in, 'first box was modified')
    arr_eq(b, b_in, 'second box was modified')
    ctx.nontrivial(bool(both))


@st.composite
def face_trims(draw):
    b = draw(boxes(-2, 6, 5))
    d = draw(st.integers(0, 2))
    n = b[1][d] - b[0][d] + 1
    if n < 2:
        b[1][d] = b[0][d] + draw(st.integers(1, 4))
        n = b[1][d] - b[0][d] + 1
    return dict(box = b, axis = d, high = draw(st.booleans()), depth = draw(st.integers(1, n - 1)), seed = draw(seeds),
                density = draw(st.sampled_from([0.03, 0.2, 0.6])))


@check('trim', face_trims(), quick = 1500, thorough = 30000,
       rule = 'a box trimmed at any of its six faces, and to a random mask; non-trivial when the box has several cells')
def trim(spec, ctx):
    b, d, n = A(spec['box']), spec['axis'], spec['depth']
    ext = tuple((b[1] - b[0] + 1).tolist())
    rng = np.random.default_rng(spec['seed'])
    mask = rng.random(ext) < spec['density']
    t = b.copy()
    if spec['high']:
        t[0, d] = b[1, d] - n + 1
    else:
        t[1, d] = b[0, d] + n - 1
    t_in, m_in = t.copy(), mask.copy()
    left = cells(b) - cells(t)
    b2 = b.copy()
    m2 = bx.trim_box_by_box_returning_new_mask(b2, t, mask)
    arr_eq(b2, bounding(left), 'trimmed box')
    for x in left:
        eq(bool(m2[tuple(np.array(x) - b2[0])]), bool(mask[tuple(np.array(x) - b[0])]), 'mask of trimmed box')
    eq(m2.shape, tuple((b2[1] - b2[0] + 1).tolist()), 'shape of mask')
    arr_eq(t, t_in)
    arr_eq(mask, m_in, 'mask argument was modified')
    m2[...] = True
    arr_eq(mask, m_in, 'trimmed mask shares data with its source')
    if mask.any():
        b3 = b.copy()
        m3 = bx.trim_box_to_mask_returning_new_mask(b3, mask)
        want = {tuple((np.array(p) + b[0]).tolist()) for p in np.argwhere(mask)}
        arr_eq(b3, bounding(want), 'box trimmed to mask')
        got = {tuple((np.array(p) + b3[0]).tolist()) for p in np.argwhere(m3)}
        eq(got, want, 'cells of mask after trimming')
        eq(m3.shape, tuple((b3[1] - b3[0] + 1).tolist()), 'shape of mask trimmed to mask')
        arr_eq(mask, m_in, 'mask argument was modified')
        ctx.label('mask')
    ctx.nontrivial()
