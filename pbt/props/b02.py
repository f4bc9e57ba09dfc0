"""B02: explicit listing of the coarse cell of every fine cell, built from the ratios as the reference."""
import math
import numpy as np
from pbt.core import check, st, ok, eq, arr_eq, arr_close, close, fail, refuses
from pbt.lib.gen import seeds, fl
import resqpy.olio.fine_coarse as rfc

axis_spec = st.fixed_dictionaries(dict(
    ratios = st.lists(st.integers(1, 5), min_size = 1, max_size = 6) | st.tuples(st.integers(1, 5), st.integers(1, 6)).map(
        lambda t: [t[0]] * t[1]),
    form = st.sampled_from(['constant', 'array', 'list', 'int32']),
    props = st.sampled_from([None, None, 'equal', 'random', 'list', 'same']), seed = seeds))


@st.composite
def mappings(draw):
    return dict(axes = [draw(axis_spec) for _ in range(3)], box = draw(st.sampled_from([None, None, 'fine', 'coarse'])),
                origin = [draw(st.integers(0, 5)) for _ in range(3)], all_const = draw(st.booleans()),
                again = draw(st.none() | st.tuples(st.integers(0, 2), seeds)))


def apply_axis(fc, axis, a, ratios):
    if a['form'] == 'constant' and len(set(ratios)) == 1:
        fc.set_constant_ratio(axis)
    elif a['form'] == 'list':
        fc.set_ratio_vector(axis, list(ratios))
    else:
        fc.set_ratio_vector(axis, np.array(ratios, dtype = np.int32 if a['form'] == 'int32' else int))


def prop_vectors(a, ratios):
    rng = np.random.default_rng(a['seed'])
    if a['props'] in (None, 'equal'):
        return None
    if a['props'] == 'same':
        return [np.full(r, 2.5) for r in ratios]
    v = [rng.uniform(0.1, 4.0, r) for r in ratios]
    return [x.tolist() for x in v] if a['props'] == 'list' else v


def verify(fc, ratios, props, ctx):
    """ratios: 3 lists of int; props: 3 lists of vectors normalised to sum to one."""
    fc.assert_valid()
    owner = [[c for c, r in enumerate(rs) for _ in range(r)] for rs in ratios]
    mapping = fc.coarse_for_fine()
    eq(len(mapping), 3)
    for axis in range(3):
        arr_eq(np.asarray(mapping[axis]), owner[axis], f'coarse for fine, axis {axis}')
        arr_eq(np.asarray(fc.coarse_for_fine_axial_vector(axis)), owner[axis], 'coarse_for_fine_axial_vector')
        for f0, c0 in enumerate(owner[axis]):
            eq(int(fc.coarse_for_fine_axial(axis, f0)), c0, 'coarse_for_fine_axial')
        for c0, r in enumerate(ratios[axis]):
            eq(int(fc.ratio(axis, c0)), r, 'ratio')
            eq(int(fc.fine_base_for_coarse_axial(axis, c0)), owner[axis].index(c0), 'fine_base_for_coarse_axial')
            p = np.asarray(fc.proportion(axis, c0))
            arr_close(p, props[axis][c0], 1e-6, 'proportion')
            close(p.sum(), 1.0, 1e-6, 'proportions do not sum to one')
            ok(np.all(p > 0), 'proportion not positive')
            f = np.asarray(fc.interpolation(axis, c0))
            arr_close(f, np.concatenate(([0.0], np.cumsum(props[axis][c0])[:-1])), 1e-6, 'interpolation')
        arr_close(fc.proportions_for_axis(axis), np.concatenate(props[axis]), 1e-6, 'proportions_for_axis')
    nf = [len(o) for o in owner]
    nc = [len(r) for r in ratios]
    seen = set()
    for k in range(nc[0]):
        for j in range(nc[1]):
            for i in range(nc[2]):
                c = (k, j, i)
                eq(tuple(int(x) for x in fc.ratios(c)), tuple(ratios[a][c[a]] for a in range(3)), 'ratios')
                b = np.asarray(fc.fine_box_for_coarse(c))
                eq(b.shape, (2, 3))
                base = tuple(int(x) for x in fc.fine_base_for_coarse(c))
                eq(base, tuple(owner[a].index(c[a]) for a in range(3)), 'fine_base_for_coarse')
                eq(tuple(int(x) for x in b[0]), base, 'fine box minimum')
                eq(tuple(int(x) for x in b[1]), tuple(base[a] + ratios[a][c[a]] - 1 for a in range(3)), 'fine box maximum')
                ps = list(fc.proportions(c))
                for a in range(3):
                    arr_close(ps[a], props[a][c[a]], 1e-6, 'proportions of cell')
                for f in ((x, y, z) for x in range(b[0, 0], b[1, 0] + 1) for y in range(b[0, 1], b[1, 1] + 1)
                          for z in range(b[0, 2], b[1, 2] + 1)):
                    ok(f not in seen, 'fine cell in two coarse cells', f)
                    seen.add(f)
                corner = tuple(int(x) for x in b[1])
                eq(tuple(int(x) for x in fc.coarse_for_fine_kji0(corner)), c, 'coarse_for_fine_kji0')
                eq(tuple(int(x) for x in fc.coarse_for_fine_kji0(base)), c, 'coarse_for_fine_kji0')
    eq(len(seen), nf[0] * nf[1] * nf[2], 'fine cells covered')
    for cj in range(nc[1]):
        for ci in range(nc[2]):
            eq(int(fc.fine_for_coarse_natural_column_index(cj * nc[2] + ci)),
               owner[1].index(cj) * nf[2] + owner[2].index(ci), 'fine_for_coarse_natural_column_index')
    ends = [[o.index(c) for c in range(n)] + [len(o)] for o, n in zip(owner, nc)]
    for pj in range(nc[1] + 1):
        for pi in range(nc[2] + 1):
            eq(int(fc.fine_for_coarse_natural_pillar_index(pj * (nc[2] + 1) + pi)),
               ends[1][pj] * (nf[2] + 1) + ends[2][pi], 'fine_for_coarse_natural_pillar_index')


@check('mapping', mappings(), quick = 700, thorough = 15000, shards = 3,
       rule = 'constant or varying ratios, equal or varying proportions, optionally boxed and with ratios set again after use; '
       'non-trivial when some axis has unequal ratios or proportions')
def mapping(spec, ctx):
    ratios = [a['ratios'] for a in spec['axes']]
    fine, coarse = tuple(sum(r) for r in ratios), tuple(len(r) for r in ratios)
    fb = cb = None
    o = np.array(spec['origin'])
    if spec['box'] == 'fine':
        fb = np.array([o, o + fine - 1])
    elif spec['box'] == 'coarse':
        cb = np.array([o, o + coarse - 1])
    fc = rfc.FineCoarse(fine, coarse, within_fine_box = fb, within_coarse_box = cb)
    consts = [len(set(r)) == 1 for r in ratios]
    if all(consts) and spec['all_const']:
        fc.set_all_ratios_constant()
    elif consts[1] and consts[2] and spec['all_const']:
        fc.set_ij_ratios_constant()
        apply_axis(fc, 0, spec['axes'][0], ratios[0])
    else:
        for axis in range(3):
            apply_axis(fc, axis, spec['axes'][axis], ratios[axis])
    props = []
    for axis, a in enumerate(spec['axes']):
        v = prop_vectors(a, ratios[axis])
        if v is None:
            if a['props'] == 'equal':
                fc.set_equal_proportions(axis)
            props.append([np.full(r, 1.0 / r) for r in ratios[axis]])
        else:
            fc.set_proportions_list_of_vectors(axis, v)
            props.append([np.array(x) / np.sum(x) for x in v])
    eq(tuple(fc.fine_extent_kji), fine)
    eq(tuple(fc.coarse_extent_kji), coarse)
    verify(fc, ratios, props, ctx)
    if spec['again'] is not None:
        axis, seed = spec['again']
        r2 = list(ratios[axis])
        np.random.default_rng(seed).shuffle(r2)
        fc.set_equal_proportions(axis)
        fc.set_ratio_vector(axis, r2)
        ratios[axis] = r2
        props[axis] = [np.full(r, 1.0 / r) for r in r2]
        verify(fc, ratios, props, ctx)
        ctx.label('ratios set again')
    # invalid settings are refused
    a0 = spec['origin'][0] % 3
    with refuses('ratios with the wrong sum'):
        fc.set_ratio_vector(a0, np.array(ratios[a0][:-1] + [ratios[a0][-1] + 1]))
    with refuses('ratios of wrong length'):
        fc.set_ratio_vector(a0, np.array(ratios[a0] + [0]))
    if len(ratios[a0]) > 1:
        with refuses('zero ratio'):
            fc.set_ratio_vector(a0, np.array([0, ratios[a0][0] + ratios[a0][1]] + ratios[a0][2:]))
    if fine[a0] % coarse[a0]:
        with refuses('constant ratio where not divisible'):
            fc.set_constant_ratio(a0)
    with refuses('negative proportion'):
        v = [np.ones(r) for r in ratios[a0]]
        v[-1][-1] = -0.5
        fc.set_proportions_list_of_vectors(a0, v)
    verify(fc, ratios, props, ctx)
    if cb is not None:
        ctx.label('cartref')
        path = ctx.path('c.txt')
        fc.write_cartref(path, 'LGR_A', mode = 'w', root_name = 'ROOT' if spec['all_const'] else None)
        w = open(path).read().split()
        at = w.index('CARTREF')
        eq(w[at + 1], 'LGR_A')
        eq([int(x) for x in w[at + 2:at + 8]], [int(v) + 1 for d in (2, 1, 0) for v in (cb[0, d], cb[1, d])], 'cartref box')
        end = w.index('ENDREF')
        eq([int(x) for x in w[at + 8:end]], ratios[2] + ratios[1] + ratios[0], 'cartref ratios')
    ctx.label(f"box {spec['box']}")
    ctx.nontrivial(any(not c for c in consts) or any(not fc.equal_proportions[a] for a in range(3)))


@st.composite
def tartans(draw):
    ext = [draw(st.integers(1, 9)) for _ in range(3)]
    b0 = [draw(st.integers(0, e - 1)) for e in ext]
    b1 = [draw(st.integers(b, min(e - 1, b + 2))) for b, e in zip(b0, ext)]
    mode = draw(st.sampled_from(['exponential', 'linear']))
    rates = draw(st.none() | st.tuples(*[(fl(0, 1, 2) if mode == 'exponential' else st.integers(0, 3) | fl(0, 3, 2))] * 3))
    return dict(ext = ext, box = [b0, b1], ratios = [draw(st.integers(1, 7)) for _ in range(3)], mode = mode, rates = rates,
                within = draw(st.booleans()))


@check('tartan', tartans(), quick = 500, shards = 2, thorough = 20000,
       rule = 'any fovea box, ratios and decay rates of both modes, or default decay; non-trivial when some ratio differs outside the fovea')
def tartan(spec, ctx):
    ext, b, rt = spec['ext'], np.array(spec['box']), spec['ratios']
    wb = np.array([[2, 3, 4], [2 + ext[0] - 1, 3 + ext[1] - 1, 4 + ext[2] - 1]]) if spec['within'] else None
    fc = rfc.tartan_refinement(tuple(ext), b.copy(), tuple(rt), decay_rates_kji = spec['rates'], decay_mode = spec['mode'],
                               within_coarse_box = wb)
    eq(tuple(fc.coarse_extent_kji), tuple(ext))
    ratios = []
    for a in range(3):
        rs = [int(fc.ratio(a, c)) for c in range(ext[a])]
        ratios.append(rs)
        ok(all(r >= 1 for r in rs), 'ratio below one', rs)
        for c in range(ext[a]):
            n = max(b[0, a] - c, c - b[1, a], 0)
            if n == 0:
                eq(rs[c], rt[a], 'ratio within fovea')
                continue
            inner = rs[c + 1] if c < b[0, a] else rs[c - 1]
            ok(rs[c] <= inner, 'ratio increases away from the fovea', rs)
            if spec['rates'] is not None:
                x = rt[a] - n * spec['rates'][a] if spec['mode'] == 'linear' else rt[a] * spec['rates'][a]**n
                ok(abs(rs[c] - max(1.0, x)) <= 0.5 + 1e-6, 'decayed ratio', rs, c, x)
        if spec['rates'] is None:
            for e, edge in ((0, b[0, a]), (ext[a] - 1, ext[a] - 1 - b[1, a])):
                if edge > 0 and spec['mode'] == 'exponential':
                    ok(rs[e] <= max(2, (rt[a] + 1) // 2 + 1), 'no decay to the edge', rs)
    eq(tuple(int(x) for x in fc.fine_extent_kji), tuple(sum(r) for r in ratios), 'fine extent')
    verify(fc, ratios, [[np.full(r, 1.0 / r) for r in rs] for rs in ratios], ctx)
    if wb is not None:
        arr_eq(fc.within_coarse_box, wb, 'within_coarse_box')
    for a in range(3):
        eq(rfc.axis_for_letter('kji'[a]), a)
        eq(rfc.axis_for_letter('KJI'[a]), a)
        eq(rfc.letter_for_axis(a), 'KJI'[a])
    ctx.label(spec['mode'], 'default rates' if spec['rates'] is None else 'given rates')
    ctx.nontrivial(any(len(set(r)) > 1 for r in ratios))
