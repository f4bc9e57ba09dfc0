"""Random histories of registering, writing, reading, overwriting and copying arrays, against a dictionary model of the whole hdf5 file; every intermediate file is read with h5py alone.

After every step the complete content of each file (paths, shapes, types, values) equals the model's, so an array of another object which is altered, lost or added shows; reads through the model (whole with caching and reshaping, packed, by element, by slice, shape and type) are compared with numpy indexing of the expected array."""
import os

import h5py
import numpy as np

import resqpy.model as rq
import resqpy.olio.uuid as bu
import resqpy.olio.write_hdf5 as rwh5

from pbt.core import *
from pbt.lib.gen import *

DTYPES = ['float64', 'float32', 'float16', 'int64', 'int32', 'int16', 'int8', 'uint8', 'uint16', 'uint32', 'uint64', 'bool']
TAILS = ['points', 'values_patch0', 'a/b', '/lead', 'trail/', 'Éa b']
CH = [None, None, 'auto', 'all', 'slice', 'none', 'tuple']
CO = [None, None, None, 'gzip', 'lzf', 'none']
SHAPE = st.one_of(st.lists(st.integers(1, 6), min_size = 1, max_size = 4), st.lists(st.integers(1, 20), min_size = 1, max_size = 2), st.lists(st.integers(0, 3), min_size = 1, max_size = 3))
ITEM = st.fixed_dictionaries(dict(obj = st.integers(0, 3), tail = st.integers(0, len(TAILS) - 1), shape = SHAPE, dtype = st.sampled_from(DTYPES), as_ = st.sampled_from([None, None, None, 'float32', 'float64', 'int8', 'int64', 'int32', 'uint8', 'pack', float, int]).map(lambda x: x if x is None or isinstance(x, str) else x.__name__ + '!'),
                                  path = st.sampled_from([None, None, None, None, 'RESQML/own/p', '/other/q/r']), copy = st.booleans(), chunks = st.sampled_from(CH), comp = st.sampled_from(CO), order = st.sampled_from(['C', 'C', 'F', 'strided']), seed = seeds))
WRITE = st.fixed_dictionaries(dict(op = st.just('write'), items = st.lists(ITEM, min_size = 1, max_size = 4), mode = st.sampled_from(['a', 'a', 'a', 'w']), release = st.booleans(), int32 = st.sampled_from([None, None, True, False]),
                                   dch = st.sampled_from([None, None, None, 'auto', 'all', 'slice', 'none']), dco = st.sampled_from([None, None, None, 'gzip', 'lzf', 'none']), glob = st.booleans(), via = st.sampled_from(['model', 'model', 'path', 'fp'])))
R = st.integers(0, 10**6)
READ = st.fixed_dictionaries(dict(op = st.sampled_from(['whole', 'element', 'slice', 'slice', 'over', 'over_slice', 'over_slice']), which = R, seed = seeds, rel = st.booleans()))
OTHER = st.fixed_dictionaries(dict(op = st.sampled_from(['copy_h5', 'copy_paths', 'change_uuid', 'reopen']), which = R, seed = seeds, mode = st.sampled_from(['w', 'a']), how = st.sampled_from(['all', 'incl', 'excl']), chunks = st.sampled_from([None, 'auto', 'slice']), comp = st.sampled_from([None, None, 'gzip', 'lzf'])))


def make(shape, dtype, order, rng):
    if dtype == 'bool':
        a = rng.random(shape) < 0.5
    elif dtype.startswith('float'):
        a = (rng.integers(-1000, 1000, size = shape) / 8.0).astype(dtype)
        if a.size and rng.random() < 0.4:
            a.reshape(-1)[rng.integers(a.size)] = [np.nan, np.inf, -np.inf, -0.0, np.finfo(dtype).max, np.finfo(dtype).tiny][rng.integers(6)]
    else:
        ii = np.iinfo(dtype if dtype != 'int64' else 'int32')
        a = rng.integers(ii.min, ii.max, size = shape, dtype = dtype, endpoint = True)
    if order == 'F':
        a = np.asfortranarray(a)
    elif order == 'strided':
        big = np.zeros([2 * n for n in shape], dtype = a.dtype)
        big[tuple(slice(None, None, 2) for _ in shape)] = a
        a = big[tuple(slice(None, None, 2) for _ in shape)]
    return a


def file_content(path):
    out = {}
    with h5py.File(path, 'r') as f:
        f.visititems(lambda n, o: out.__setitem__(n, o[()]) if isinstance(o, h5py.Dataset) else None)
    return out


def same_file(path, expect, what):
    if not expect and not os.path.exists(path):
        return
    got = file_content(path)
    eq(sorted(got), sorted(expect), what + ': arrays in the file')
    for n, a in expect.items():
        eq(got[n].dtype, a.dtype, f'{what}: stored type of {n}')
        eq(got[n].shape, a.shape, f'{what}: stored shape of {n}')
        arr_eq(got[n], a, f'{what}: stored values of {n}')


def rand_index(shape, rng):
    out = []
    for n in shape:
        c = rng.integers(4)
        if n and c == 0:
            out.append(int(rng.integers(n)))
        elif c == 1 or n == 0:
            out.append(slice(None))
        else:
            a = int(rng.integers(n))
            b = int(rng.integers(a + 1, n + 1))
            out.append(slice(a, b, int(rng.integers(1, 3))) if c == 2 else slice(a, b))
    c = rng.integers(4)
    if c == 0:
        out = out[:int(rng.integers(1, len(out) + 1))]
    elif c == 1:
        i = int(rng.integers(0, len(out)))
        out = [Ellipsis] + out[i + 1:]
    return tuple(out)


class Holder:
    pass


@check('hdf5', st.fixed_dictionaries(dict(ops = st.lists(st.one_of(WRITE, READ, READ, READ, OTHER), min_size = 2, max_size = 12), first = WRITE)), quick = 2400, thorough = 80000, shards = 6,
       rule = 'at least one write and at least two reads, overwrites or copies of arrays that are there')
def hdf5(spec, ctx):
    m = ctx.new_model('m.epc')
    m.store_epc(quiet = True)
    h5 = m.h5_file_name(file_must_exist = False)
    uuids = [bu.uuid_from_string(f'00000000-0000-1000-8000-00000000000{i}') for i in range(4)]
    state = {}  # path -> array as stored
    n_reads = 0

    def key_of(it):
        if it['path'] is not None and it['obj'] == 0:
            return it['path'].strip('/') + str(it['tail'])
        return f'RESQML/{uuids[it["obj"]]}/{TAILS[it["tail"]].strip("/")}'

    def write(o):
        nonlocal state
        dch, dco = o['dch'], o['dco']
        if o['glob']:
            rwh5.set_global_default_chunks_and_compression(dch, dco)
        try:
            reg = rwh5.H5Register(m) if o['glob'] else rwh5.H5Register(m, default_chunks = dch, default_compression = dco)
            add, used = {}, set()
            for it in o['items']:
                k = key_of(it)
                if o['mode'] == 'a' and any(k == q or q.startswith(k + '/') or k.startswith(q + '/') for q in state):
                    continue
                if k in add or any(q.startswith(k + '/') or k.startswith(q + '/') for q in add):
                    continue
                if (it['obj'], TAILS[it['tail']].strip('/')) in used:
                    continue
                used.add((it['obj'], TAILS[it['tail']].strip('/')))
                rng = np.random.default_rng(it['seed'])
                dt, as_ = it['dtype'], it['as_']
                if as_ == 'pack':
                    dt = 'bool'
                a = make(it['shape'], dt, it['order'], rng)
                if as_ is not None and as_ != 'pack' and a.dtype.kind != 'b':  # conversion must be able to hold the values
                    a = np.nan_to_num(a.astype('float64'), posinf = 9, neginf = -9) % 120
                    a = a.astype(dt)
                want = a.copy()
                dtype = {None: None, 'float!': float, 'int!': int, 'bool!': bool}.get(as_, as_)
                if as_ == 'pack':
                    want = np.packbits(want, axis = -1)
                elif dtype is not None:
                    want = want.astype(dtype)
                    if want.dtype == bool:
                        want = want.astype('uint8')
                elif want.dtype == bool:
                    want = want.astype('uint8')
                elif want.dtype == 'int64' and o['int32'] in (None, True):
                    want = want.astype('int32')
                chunks = it['chunks']
                if chunks == 'tuple':
                    chunks = tuple(next(d for d in (rng.integers(1, n + 1), n) if n % d == 0) for n in want.shape) if want.size else None
                    chunks = None if chunks is None else tuple(int(c) for c in chunks)
                kw = dict(hdf5_internal_path = it['path'] + str(it['tail'])) if it['path'] is not None and it['obj'] == 0 else {}
                reg.register_dataset(uuids[it['obj']], TAILS[it['tail']], a, dtype = dtype, copy = it['copy'], chunks = chunks, compression = it['comp'], **kw)
                if it['copy'] and a.size:
                    a[...] = 1
                add[k] = want
            if not add:
                return
            if o['via'] == 'fp':
                m.h5_release()
                with h5py.File(h5, o['mode']) as fp:
                    reg.write(fp, use_int32 = o['int32'])
            else:
                reg.write(h5 if o['via'] == 'path' else None, mode = o['mode'], release_after = o['release'], use_int32 = o['int32'])
            state = add if o['mode'] == 'w' else {**state, **add}
            ctx.label('write ' + o['mode'])
        finally:
            rwh5.set_global_default_chunks_and_compression(None, None)

    def step(o, what):
        nonlocal state, m, n_reads
        if o['op'] == 'write':
            return write(o)
        if not state:
            return
        rng = np.random.default_rng(o['seed'])
        path = sorted(state)[o['which'] % len(state)]
        a = state[path]
        pair = (m.h5_uuid(), ('/' if o['seed'] % 2 else '') + path)
        n_reads += 1
        ctx.label(o['op'])
        op = o['op']
        if op == 'whole':
            shape, dtype = m.h5_array_shape_and_type(pair)
            eq((tuple(shape), np.dtype(dtype)), (a.shape, a.dtype), 'shape and type')
            h = Holder()
            mode = rng.integers(4)
            want, rs, dt = a, None, a.dtype
            if mode == 1:  # reshape
                rs = [(-1,), (1, a.size), a.shape[:1] + (1,) + a.shape[1:], a.shape][rng.integers(4)]
                want = a.reshape(rs)
                rs = want.shape
            elif mode == 2 and a.dtype == 'uint8' and a.size:  # unpack
                last = int(rng.integers(8 * (a.shape[-1] - 1) + 1, 8 * a.shape[-1] + 1))
                if last != a.shape[-1]:
                    rs, dt = a.shape[:-1] + (last,), 'pack' if rng.integers(2) else bool
                    want = np.unpackbits(a, axis = -1)[..., :last].astype(bool)
            elif mode == 3:
                dt = ['float', 'float64', float, 'bool', bool][rng.integers(5 if a.dtype.kind != 'f' else 3)]
                want = a.astype({'pack': bool}.get(dt, dt))
            r = m.h5_array_element(pair, cache_array = True, object = h, array_attribute = 'x', dtype = dt, required_shape = list(rs) if rs is not None and rng.integers(2) else rs)
            ok(r is None, 'caching without an index returns None', r)
            arr_eq(h.x, want, 'cached array')
            eq(h.x.dtype, want.dtype, 'type of cached array')
            if want.size:
                idx = tuple(int(rng.integers(n)) for n in want.shape)
                arr_eq(np.asarray(m.h5_array_element(pair, index = idx, cache_array = True, object = h, array_attribute = 'x', dtype = dt)), np.asarray(want[idx]), 'element of cached array')
                h2 = Holder()
                arr_eq(np.asarray(m.h5_array_element(pair, index = list(idx), cache_array = True, object = h2, array_attribute = 'y', dtype = dt, required_shape = rs)), np.asarray(want[idx]), 'element while caching')
                arr_eq(h2.y, want, 'cached array')
        elif op == 'element':
            if a.size == 0:
                return
            idx = tuple(int(rng.integers(n)) for n in a.shape)
            arr_eq(np.asarray(m.h5_array_element(pair, index = idx, dtype = None)), np.asarray(a[idx]), 'element')
            dt = {'f': 'float', 'i': 'int', 'u': 'int', 'b': 'bool'}[a.dtype.kind]
            r = m.h5_array_element(pair, index = idx, dtype = dt)
            ok(isinstance(r, {'float': float, 'int': int, 'bool': bool}[dt]), 'python type of element', type(r))
            arr_eq(np.asarray(r, dtype = float), np.asarray(a[idx], dtype = float), 'element')
            facs = [d for d in range(1, a.size + 1) if a.size % d == 0]
            d = facs[rng.integers(len(facs))]
            b = a.reshape((d, a.size // d))
            idx = tuple(int(rng.integers(n)) for n in b.shape)
            arr_eq(np.asarray(m.h5_array_element(pair, index = idx, dtype = None, required_shape = b.shape)), np.asarray(b[idx]), 'element with reshaping')
        elif op == 'slice':
            idx = rand_index(a.shape, rng)
            r = m.h5_array_slice(pair, idx)
            arr_eq(np.asarray(r), np.asarray(a[idx]), f'slice {idx}')
            eq(np.asarray(r).dtype, a.dtype, 'type of slice')
        elif op == 'over':
            new = make(a.shape, str(a.dtype), 'C', rng)
            m.h5_overwrite_array(pair, new)
            state[path] = new
        elif op == 'over_slice':
            idx = rand_index(a.shape, rng)
            new = make(a.shape, str(a.dtype), 'C', rng)
            m.h5_overwrite_array_slice(pair, idx, new[idx])
            b = a.copy()
            b[idx] = new[idx]
            state[path] = b
        elif op == 'copy_h5':
            m.h5_release()
            out = ctx.path('copy.h5')
            groups = {p.split('/')[1] for p in state if p.startswith('RESQML/') and p.split('/')[1] != 'own'}
            if any(p.startswith('RESQML/own') for p in state) and o['how'] != 'all' or not any(p.startswith('RESQML/') for p in state):
                return
            sub = [u for u in uuids if rng.integers(2)]
            there = {'RESQML/other/x': np.arange(3)} if o['mode'] == 'a' else {}
            with h5py.File(out, 'w') as f:
                for n, b in there.items():
                    f.create_dataset(n, data = b)
            kw = {'all': {}, 'incl': dict(uuid_inclusion_list = sub), 'excl': dict(uuid_exclusion_list = sub)}[o['how']]
            n = rwh5.copy_h5(h5, out, mode = o['mode'], **kw)
            ss = {str(u) for u in sub}
            keep = {p: b for p, b in state.items() if p.startswith('RESQML/') and (o['how'] == 'all' or (p.split('/')[1] in ss) == (o['how'] == 'incl'))}
            eq(n, len({p.split('/')[1] for p in keep}), 'number of groups copied')
            same_file(out, {**there, **keep}, 'copied file')
        elif op == 'copy_paths':
            m.h5_release()
            out = ctx.path('copy2.h5')
            sub = [p for p in sorted(state) if rng.integers(2)]
            if os.path.exists(out):
                os.remove(out)
            there = {}
            if o['mode'] == 'a':
                there = {'RESQML/other/x': np.arange(3)}
                if sub and rng.integers(2):
                    there[sub[0]] = np.zeros(2)  # already present: to be left
                with h5py.File(out, 'w') as f:
                    for n, b in there.items():
                        f.create_dataset(n, data = b)
            if any(state[p].size == 0 for p in sub) and (o['chunks'] or o['comp']):
                return
            n = rwh5.copy_h5_path_list(h5, out, [('/' + p if rng.integers(2) else p) for p in sub], mode = o['mode'], chunks = o['chunks'], compression = o['comp'])
            eq(n, len([p for p in sub if p not in there]), 'number of datasets copied')
            same_file(out, {**{p: state[p] for p in sub}, **there}, 'copied file')
        elif op == 'change_uuid':
            m.h5_release()
            olds = sorted({p.split('/')[1] for p in state if p.startswith('RESQML/') and p.split('/')[1] != 'own'})
            if not olds:
                return
            old = olds[o['which'] % len(olds)]
            new = bu.new_uuid()
            if rng.integers(2):
                rwh5.change_uuid(h5, bu.uuid_from_string(old), new)
            else:
                with h5py.File(h5, 'r+') as f:
                    rwh5.change_uuid(f, bu.uuid_from_string(old), new)
            state = {p.replace(old, str(new)): b for p, b in state.items()}
        elif op == 'reopen':
            m.store_epc(quiet = True)
            m = ctx.reopen(m)
        if o.get('rel'):
            m.h5_release()

    for i, o in enumerate([spec['first']] + spec['ops']):
        what = f'step {i} ({o["op"]})'
        try:
            step(o, what)
        finally:
            pass
        if o.get('rel', True) and o['op'] != 'slice':
            m.h5_release()
            same_file(h5, state, what)
    m.h5_release()
    same_file(h5, state, 'at end')
    if n_reads >= 2:
        ctx.nontrivial()
