"""property-based testing: arrays and records written as text or binary by the code or by generators here, and read back

Random arrays are written with every layout option and read, from text and binary copies (older or newer, with or without
header, keyword, comments and blank lines), and generated text in many layouts is parsed, expecting the values printed.
Corner point files in each ordering are read with and without the extent.  Random walks over the keyword searching functions
on generated files are compared with a model of the lines.  Fault multiplier tables and simple line files are parsed to the
generated records.
"""
import os
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import resqpy.model as rq
import resqpy.olio.ab_toolbox as abt
import resqpy.olio.grid_functions as gf
import resqpy.olio.keyword_files as kf
import resqpy.olio.load_data as ld
import resqpy.olio.read_nexus_fault as rnf
import resqpy.olio.simple_lines as sl
import resqpy.olio.write_data as wd

from pbt.core import *
from pbt.lib.gen import *

seeds = st.integers(0, 10 ** 6)


def older(path, by = 100):
    s = os.stat(path)
    os.utime(path, (s.st_atime - by, s.st_mtime - by))


def data_of(rng, shape, kind, wide = False):
    if kind in ('bool', 'boolean'):
        return rng.random(shape) < 0.5
    if kind in ('int', 'integer'):
        return rng.integers(-10 ** 6 if wide else -3, 10 ** 6 if wide else 20, shape)
    a = rng.uniform(-1.0, 1.0, shape) * 10.0 ** rng.integers(-2, 6 if wide else 3, shape)
    return a


@check('write_read', st.fixed_dictionaries(dict(seed = seeds, nk = st.integers(1, 3), nj = st.integers(1, 4), ni = st.integers(1, 30), kind = st.sampled_from(['real', 'int', 'bool', 'float', 'integer', 'boolean']), dtype = st.sampled_from(['', '4', 'order']), headers = st.booleans(), keyword = st.sampled_from([None, 'POROSITY', 'KX VALUE']), columns = st.sampled_from([20, 1, 3, 7]), decimals = st.sampled_from([3, 0, 1, 8]), blank_i = st.booleans(), blank_j = st.booleans(), space = st.booleans(), binary = st.sampled_from(['no', 'yes', 'only']), append = st.booleans(), sub = st.booleans(), nan = st.booleans(), flat = st.booleans())),
       quick = 250, rule = 'more values in a row than columns')
def write_read(s, ctx):
    """Arrays written, then read back from text and binary."""
    rng = np.random.default_rng(s['seed'])
    shape = (s['nk'], s['nj'], s['ni'])
    kind = s['kind']
    a = data_of(rng, shape, kind, s['seed'] % 2 == 0)
    real = kind in ('real', 'float')
    if s['dtype'] == '4' and kind not in ('bool', 'boolean'):
        a = a.astype(np.float32 if real else np.int32)
    elif s['dtype'] == 'order':
        a = np.asfortranarray(a)
    nan = real and s['nan']
    if nan:
        a[rng.random(shape) < 0.3] = np.nan
    if s['ni'] > s['columns']:
        ctx.nontrivial()
    path = ctx.path('arr.dat')
    kw = dict(headers = s['headers'], keyword = s['keyword'], columns = s['columns'], data_type = kind, decimals = s['decimals'], blank_line_after_i_block = s['blank_i'], blank_line_after_j_block = s['blank_j'], space_separated = s['space'])
    sub = -77.5 if nan and s['sub'] else None
    before = a.copy()
    wd.write_array_to_ascii_file(path, shape, a, use_binary = s['binary'] != 'no', binary_only = s['binary'] == 'only', nan_substitute_value = sub, **kw)
    arr_eq(a, before, 'array after being written')
    full = a.astype({'real': float, 'float': float, 'int': int, 'integer': int, 'bool': bool, 'boolean': bool}[kind])
    if sub is not None:
        full = np.where(np.isnan(full), sub, full)
    exp = full
    tol = 0.0
    if real:
        tol = 0.5000001 * 10.0 ** -s['decimals'] + 1e-10 + (1e-3 if s['dtype'] == '4' and s['decimals'] < 3 else 0.0)

    def same(got, what, t):
        eq(got.dtype, np.dtype(exp.dtype), f'type of {what}')
        eq(got.shape, shape, f'shape of {what}')
        if real:
            arr_eq(np.isnan(got), np.isnan(exp), f'nans of {what}')
            if not t:
                arr_eq(np.nan_to_num(got), np.nan_to_num(exp), what)
            else:
                ok(np.all(np.abs(np.nan_to_num(got) - np.nan_to_num(exp)) <= t), f'{what} is not as written')
        else:
            arr_eq(got, exp, what)

    if s['binary'] == 'only':
        ok(not os.path.exists(path), 'text written for binary only')
    else:
        for line in open(path):
            if line.startswith('!') or (s['keyword'] and line.startswith(s['keyword'])):
                continue
            ok(len(line.split()) <= s['columns'], 'too many values in a line')
        extent = [s['nk'] * s['nj'], s['ni']] if s['flat'] else list(shape)
        got = ld.load_array_from_ascii_file(path, extent, data_type = kind, keyword = None if s['keyword'] is None else s['keyword'].split()[0])
        eq(got.shape, tuple(extent), 'shape of array from text')
        same(got.reshape(shape), 'array from text', tol)
        got = ld.load_array_from_ascii_file(path, None, data_type = kind, keyword = None if s['keyword'] is None else s['keyword'].split()[0])
        same(got.reshape(shape), 'array from text without extent', tol)
        got = ld.load_array_from_file(path, list(shape), data_type = kind, keyword = None if s['keyword'] is None else s['keyword'].split()[0], use_binary = False)
        same(got, 'array from file', tol)
    ext, dt = abt.binary_file_extension_and_np_type_for_data_type(kind)
    if s['binary'] != 'no':
        ok(os.path.exists(path + ext), 'no binary file')
        if os.path.exists(path):
            older(path)
        for name in ([path, path + ext]):
            got = ld.load_array_from_file(name, list(shape), data_type = kind, use_binary = True)
            same(got, 'array from binary', 0.0)
        got = abt.load_array_from_ab_file(path + ext, shape)
        arr_eq(got.astype(float), exp.astype(float), 'array from pure binary file')
    elif s['keyword'] is None or True:
        kwd = None if s['keyword'] is None else s['keyword'].split()[0]
        first = ld.load_array_from_file(path, list(shape), data_type = kind, keyword = kwd, use_binary = True)
        same(first, 'array from text, binary wanted', tol)
        ok(os.path.exists(path + ext), 'no binary copy made')
        older(path)
        os.rename(path, path + '_')
        again = ld.load_array_from_file(path, list(shape), data_type = kind, keyword = kwd, use_binary = True)
        arr_eq(again, first, 'array from binary copy')
        eq(again.dtype, first.dtype, 'type from binary copy')
        b = data_of(rng, shape, kind)  # newer text
        wd.write_array_to_ascii_file(path, shape, b, **kw)
        older(path + ext, 300)
        newer = ld.load_array_from_file(path, list(shape), data_type = kind, keyword = kwd, use_binary = True)
        ok(np.all(np.abs(newer.astype(float) - b.astype(float)) <= tol), 'newer text ignored for older binary')
        arr_eq(abt.load_array_from_ab_file(path + ext, shape).astype(float), newer.astype(float), 'refreshed binary copy')
        os.remove(path + ext)
        exp = b
        got = ld.load_array_from_file(path + ext, list(shape), data_type = kind, keyword = kwd, use_binary = True)
        arr_eq(got, newer, 'array named by binary file, made from text')
    if s['append']:
        p2 = ctx.path('two.dat')
        b = data_of(rng, shape, kind)
        wd.write_array_to_ascii_file(p2, shape, b, use_binary = True, **dict(kw, keyword = 'FIRST'))
        wd.write_array_to_ascii_file(p2, shape, b[::-1], use_binary = True, append = True, **dict(kw, keyword = 'Second VALUE'))
        arr_eq(abt.load_array_from_ab_file(p2 + ext, shape).astype(float), b.astype(float), 'binary of first array')
        arr_eq(abt.load_array_from_ab_file(p2 + '_second' + ext, shape).astype(float), b[::-1].astype(float), 'binary of appended array')
        with open(p2) as fp:
            ok(kf.find_keyword(fp, 'first'), 'first keyword')
            fp.readline()
            words = []
            while not kf.specific_keyword_next(fp, 'SECOND'):
                words += fp.readline().split()
            fp.readline()
            rest = fp.read().split()
        t = 0.5000001 * 10.0 ** -s['decimals'] + 1e-10 if real else 0.0
        for w, c in ((words, b), (rest, b[::-1])):
            eq(len(w), b.size, 'values in appended file')
            ok(np.all(np.abs(np.array(w, dtype = float).reshape(shape) - c) <= t), 'values in appended file differ')


def number_text(rng, v, kind):
    if kind in ('bool', 'boolean'):
        return '1' if v else '0'
    if kind in ('int', 'integer'):
        return ('+' if v > 0 and rng.random() < 0.1 else '') + str(int(v))
    return str(rng.choice([f'{v:.4f}', f'{v:.5e}', f'{v:.3E}', f'{v:+.2f}', repr(float(v))]))


@check('text', st.fixed_dictionaries(dict(seed = seeds, dims = st.lists(st.integers(1, 5), min_size = 1, max_size = 4), kind = st.sampled_from(['int', 'real', 'bool']), char = st.sampled_from(['!', '#', '--', '!', 'C']), given = st.booleans(), keyword = st.sampled_from([None, 'ARRAY', 'DEPTH']), lower = st.booleans(), clines = st.booleans(), free = st.booleans(), inner = st.booleans(), tail = st.booleans(), extent = st.booleans(), skip_c = st.booleans(), wrong = st.sampled_from([None, None, 'short', 'repeat']), maxl = st.sampled_from([None, 50, 1]), eol = st.booleans())),
       quick = 300, rule = 'comments among data')
def text(s, ctx):
    """Generated text of one array in many layouts."""
    rng = np.random.default_rng(s['seed'])
    a = data_of(rng, tuple(s['dims']), s['kind'], True)
    words = [number_text(rng, v, s['kind']) for v in a.flatten()]
    exp = np.array([float(w) for w in words])
    if s['kind'] == 'int':
        exp = a.flatten()
    char = s['char'] if len(s['char']) == 1 or not s['given'] else '!'
    inner = s['inner'] and not s['free']
    clines = s['clines'] and s['skip_c'] and char != 'C'
    lines = []

    def remark():
        if clines and rng.random() < 0.4:
            return str(rng.choice(['C a 5 remark', 'c', '  C 1 2 3', 'C\t7']))
        return char + ' ' + str(rng.choice(['note', '12 13', 'x ! y', '']))

    for _ in range(int(rng.integers(1, 3))):
        lines.append(char + ' header')
    if rng.random() < 0.5:
        lines.append('')
    maxl = s['maxl']
    found = s['keyword'] is not None and (maxl is None or maxl >= len(lines) + 1)
    if s['keyword']:
        if not found:
            maxl = None
        lines.append((s['keyword'].lower() if s['lower'] else s['keyword']) + ' VALUE')
        if rng.random() < 0.4:
            lines.append(remark())
    if s['free']:
        lines.append('')
    if s['wrong'] == 'short' and len(words) > 1:
        words = words[:-1]
    repeats = s['wrong'] == 'repeat' and len(words) > 2  # not the last value
    if repeats:
        words[len(words) // 2] = '1*' + words[len(words) // 2]
    k = 0
    nontrivial = False
    while k < len(words):
        if inner and rng.random() < 0.3:
            lines.append(remark())
            nontrivial = True
        elif rng.random() < 0.1:
            lines.append('   ' if rng.random() < 0.5 else '')
        n = int(rng.integers(1, 8))
        line = str(rng.choice(['', '  ', '\t'])) + str(rng.choice([' ', '\t', '    '])).join(words[k:k + n])
        if inner and rng.random() < 0.3:
            line += ' ' + char + ' 99 trailing'
            nontrivial = True
        lines.append(line)
        k += n
    if s['tail'] and not s['free']:
        lines += ['', remark()]
    if nontrivial:
        ctx.nontrivial()
    path = ctx.path('t.dat')
    with open(path, 'w') as fp:
        fp.write('\n'.join(lines) + ('\n' if s['eol'] else ''))
    kw = dict(data_type = s['kind'], keyword = s['keyword'], max_lines_for_keyword = maxl, comment_char = char if s['given'] else None, data_free_of_comments = s['free'])
    extent = list(s['dims']) if s['extent'] or s['wrong'] else None
    load = lambda: ld.load_array_from_ascii_file(path, extent, skip_c_space = s['skip_c'], **kw)
    if s['wrong'] and (len(words) < a.size or repeats):
        ok(raises(load), f'{s["wrong"]} data accepted')
        return
    got = load()
    eq(got.dtype, np.dtype({'int': int, 'real': float, 'bool': bool}[s['kind']]), 'type of array')
    eq(got.shape, tuple(s['dims']) if extent else (a.size,), 'shape of array')
    arr_eq(got.flatten().astype(float), exp.astype(float), 'values in text')
    if s['skip_c']:
        got = ld.load_array_from_file(path, extent, use_binary = bool(s['seed'] % 2), **kw)
        arr_eq(got.flatten().astype(float), exp.astype(float), 'values in file')


@check('corp', st.fixed_dictionaries(dict(seed = seeds, nk = st.integers(2, 4), nj = st.integers(2, 4), ni = st.integers(2, 4), eight = st.booleans(), how = st.sampled_from(['text', 'corp_bin', 'binary']), swap = st.booleans(), known = st.booleans(), keyword = st.booleans(), comments = st.booleans(), flip = st.booleans(), one = st.booleans())),
       quick = 120, rule = 'extent worked out')
def corp(s, ctx):
    """Corner point files in each ordering."""
    rng = np.random.default_rng(s['seed'])
    nk, nj, ni = s['nk'], s['nj'], s['ni']
    known = s['known'] or s['one']
    if s['one']:
        nk, nj, ni = [max(1, x - 2) for x in (nk, nj, ni)]
    pts = np.stack(np.meshgrid(np.arange(nk + 1.0), np.arange(nj + 1.0), np.arange(ni + 1.0), indexing = 'ij'), axis = -1)[..., ::-1] * [100.0, 80.0, 10.0]
    pts = np.round(pts + rng.uniform(-3.0, 3.0, pts.shape), 3)
    if s['flip']:
        pts[..., 1] = -pts[..., 1]
    cp = np.empty((nk, nj, ni, 2, 2, 2, 3))
    for a in range(2):
        for b in range(2):
            for c in range(2):
                cp[:, :, :, a, b, c] = pts[a:nk + a, b:nj + b, c:ni + c]
    if not known:
        ctx.nontrivial()
    out = np.empty((nk * nj * ni, 24))
    for n, (k, j, i) in enumerate(np.ndindex(nk, nj, ni)):
        cell = cp[k, j, i]
        if s['eight']:  # all x, then all y, then all z
            out[n] = cell.reshape((8, 3)).T.flatten()
        else:  # round each of top and base
            out[n] = np.array([cell[a, b, c] for a in range(2) for b, c in ((0, 0), (0, 1), (1, 1), (1, 0))]).flatten()
    path = ctx.path('corp.dat')
    extent = (nk, nj, ni) if known else None
    tol = 1e-9
    if s['how'] == 'corp_bin':
        rec = np.zeros((len(out), 26), dtype = '>f4' if s['swap'] else '<f4')
        rec[:, 1:25] = out
        rec.tofile(path)
        tol = 1e-3
        load = lambda: ld.load_corp_array_from_file(path, extent, corp_bin = True, swap_bytes = s['swap'], eight_mode = s['eight'])
    else:
        with open(path, 'w') as fp:
            fp.write('! corner points\n\n')
            if s['keyword']:
                fp.write('CORP VALUE\n')
            for n, row in enumerate(out):
                if s['comments']:
                    fp.write(f'! cell {n}\n')
                for k in range(0, 24, 3):
                    fp.write(' '.join(f'{v:.3f}' for v in row[k:k + 3]) + '\n')
                fp.write('\n')
        load = lambda: ld.load_corp_array_from_file(path, extent, eight_mode = s['eight'], use_binary = s['how'] == 'binary', comment_char = '!' if s['seed'] % 2 else None)
    for again in range(2):
        got = load()
        eq(got.shape, cp.shape, 'extent of corner points')
        arr_close(got, cp, tol, 'corner points' + (' again' if again else ''))
        if s['how'] != 'binary':
            break
        older(path)
        open(path, 'a').close()
    for eight in (False, True):
        x = cp.copy()
        gf.resequence_nexus_corp(x, eight_mode = eight, undo = True)
        gf.resequence_nexus_corp(x, eight_mode = eight)
        arr_eq(x, cp, 'resequenced there and back')
    eq(abt.cp_binary_filename(path), path + '.db', 'binary file name')
    eq(abt.cp_binary_filename(path + '.db', nexus_ordering = False), path + '.reseq.db', 'resequenced file name')
    eq(abt.cp_binary_filename(path + '.reseq.db'), path + '.db', 'binary file name from resequenced')


LINES = ['KEY 1 2', 'KEY !a', 'x!yz', 'OTHER !', 'key', 'OTHER KEY', '! KEY', '', '  ', '12.5 x', '-3e4', 'C KEY', 'c', 'CKEY 5', '  Key ! note', 'STOP', 'stop now', '!', '# hash', '7', 'END', 'KEY two', 'OTHER 5', '-- x', 'nan']


def is_num(w):
    try:
        float(w)
        return True
    except ValueError:
        return False


@check('keywords', st.fixed_dictionaries(dict(lines = st.lists(st.sampled_from(LINES), max_size = 14), ops = st.lists(st.tuples(st.sampled_from(['find', 'max', 'nopass', 'copy', 'pair', 'number', 'next', 'nextno', 'numnext', 'numnextno', 'skip', 'skipb', 'eof', 'blank', 'guess', 'read', 'skipc']), st.sampled_from(['KEY', 'other', 'Stop', 'missing']), st.integers(0, 4)), min_size = 1, max_size = 12), eol = st.booleans())),
       quick = 400, rule = 'three searches over eight lines')
def keywords(s, ctx):
    """Random walks of keyword searches over a file, against a model of its lines."""
    lines = list(s['lines'])
    text = '\n'.join(lines) + ('\n' if lines and s['eol'] else '')
    path = ctx.path('k.dat')
    with open(path, 'w') as fp:
        fp.write(text)
    lines = text.split('\n')
    if lines[-1] == '':
        lines = lines[:-1]
    n = len(lines)
    at = 0
    if n > 7 and len(s['ops']) > 2:
        ctx.nontrivial()
    first = lambda k: lines[k].split()[0].upper() if lines[k].split() else None
    comment = lambda k, c = '!': first(k) is not None and first(k)[0] == c
    with open(path) as fp:
        for op, word, m in s['ops']:
            w = word.upper()
            if op == 'find' or op == 'max':
                hit = next((k for k in range(at, n) if first(k) == w and (op == 'find' or k - at < m)), None)
                got = kf.find_keyword(fp, word) if op == 'find' else kf.find_keyword(fp, word, max_lines = m)
                want = hit is not None
                at = at if hit is None else hit
            elif op == 'nopass':
                hit = next((k for k in range(at, n) if first(k) in (w, 'END')), None)
                got = kf.find_keyword_without_passing(fp, word, 'end')
                want = hit is not None and first(hit) == w
                at = n if hit is None else hit
            elif op == 'copy':
                hit = next((k for k in range(at, n) if first(k) == w), None)
                p2 = ctx.path('copy.dat')
                with open(p2, 'w') as out:
                    got = kf.find_keyword_with_copy(fp, word, out)
                want = hit is not None
                to = n if hit is None else hit
                eq(open(p2).read().split('\n')[:to - at] if to > at else [], lines[at:to], 'lines copied')
                at = to
            elif op == 'pair':
                hit = next((k for k in range(at, n) if first(k) == w and len(lines[k].split()) > 1 and lines[k].split()[1].upper() == '2'), None) if False else next((k for k in range(at, n) if first(k) == w and len(lines[k].split()) > 1 and lines[k].split()[1].upper() == 'KEY'), None)
                got = kf.find_keyword_pair(fp, word, 'key')
                want = hit is not None
                if hit is None:
                    last = [k for k in range(at, n) if first(k) == w]
                    at = last[-1] + 1 if last else at
                else:
                    at = hit
            elif op == 'number':
                hit = next((k for k in range(at, n) if first(k) is not None and is_num(lines[k].split()[0])), None)
                got = kf.find_number(fp)
                want = hit is not None
                at = n if hit is None else hit
            elif op in ('next', 'nextno', 'numnext', 'numnextno'):
                hit = next((k for k in range(at, n) if first(k) is not None and not comment(k)), None)
                skip = not op.endswith('no')
                if op.startswith('num'):
                    got = kf.number_next(fp, skip_blank_lines = skip)
                    want = hit is not None and is_num(lines[hit].split()[0])
                else:
                    got = kf.specific_keyword_next(fp, word, skip_blank_lines = skip)
                    want = hit is not None and first(hit) == w
                if skip:
                    at = n if hit is None else hit
            elif op in ('skip', 'skipb', 'skipc'):
                c = op == 'skip' or (op == 'skipb' and m % 2 == 0)
                ch = '#' if op == 'skipc' else '!'
                blanks = op != 'skip'
                isc = lambda k: comment(k, ch) or (c and first(k) == 'C')
                hit = next((k for k in range(at, n) if not (isc(k) or (blanks and first(k) is None))), None)
                if blanks:
                    got = kf.skip_blank_lines_and_comments(fp, comment_char = ch, skip_c_space = c)
                else:
                    got = kf.skip_comments(fp)
                want = None
                at = n if hit is None else hit
            elif op == 'eof':
                got, want = kf.end_of_file(fp), at >= n
            elif op == 'blank':
                got, want = kf.blank_line(fp), at >= n or first(at) is None
            elif op == 'guess':
                hit = next((lines[k].split()[0] for k in range(at, min(n, at + 10)) if first(k) is not None and lines[k].split()[0] in ('!', 'C', '#', '--')), None)
                got, want = kf.guess_comment_char(fp), hit
            else:
                got, want = fp.readline().rstrip('\n'), lines[at] if at < n else ''
                at = min(n, at + 1)
            eq(got, want, f'result of {op} {word} {m}')
            here = fp.tell()
            rest = fp.read()
            fp.seek(here)
            exp = '\n'.join(lines[at:]) + ('\n' if at < n and text.endswith('\n') else '')
            eq(rest, exp, f'rest of file after {op} {word} {m}')
    for line in lines:
        for ch in '!#':
            for end in ('', '\n', '\r\n'):
                a, b = kf.split_trailing_comment(line + end, ch)
                wa, _, wb = line.partition(ch)
                eq((a, b), (wa, wb), f'line {line!r} split at comment')
                eq(kf.strip_trailing_comment(line + end, ch), wa, 'line stripped of comment')


@check('faults', st.fixed_dictionaries(dict(seed = seeds, tables = st.lists(st.tuples(st.sampled_from(['TX', 'TY', 'TZ', 'TI', 'TJ', 'TK']), st.sampled_from(['ALL PLUS MULT', 'ALL MINUS MULT', 'STD MINUS', '']), st.sampled_from([None, 'ROOT', 'LGR_1', 'fine']), st.sampled_from([None, 'F1', 'fault_b', '7']), st.integers(0, 5)), max_size = 5), comments = st.booleans(), other = st.booleans(), ints = st.booleans(), short = st.booleans(), order = st.booleans(), eol = st.booleans())),
       quick = 250, rule = 'two tables with records')
def faults(s, ctx):
    """Fault multiplier tables."""
    rng = np.random.default_rng(s['seed'])
    lines, want = [], []

    def maybe(p = 0.3):
        while s['comments'] and rng.random() < p:
            lines.append(str(rng.choice(['! remark', '', 'C another 1 2', '   ', '!1 2 3 4 5 6 7'])))

    if s['other']:
        lines += ['NX NY NZ', '10 10 10', 'KX CON', '100', '']
    for face, rest, grid, name, n in s['tables']:
        maybe()
        lines.append(f'MULT {face} {rest}'.strip() + (' ! table' if s['comments'] else ''))
        heads = []
        if grid:
            heads.append('GRID ' + grid)
        if name:
            heads.append('FNAME ' + name)
        for h in (heads[::-1] if s['order'] else heads):
            maybe()
            lines.append(h)
        for r in range(n):
            maybe(0.2)
            lo = rng.integers(1, 20, 3)
            hi = lo + rng.integers(0, 3, 3)
            mult = float(rng.integers(0, 3)) if s['ints'] else round(float(rng.uniform(0.0, 2.0)), int(rng.integers(1, 6)))
            box = [int(v) for p in zip(lo, hi) for v in p]
            t = str(int(mult)) if s['ints'] else str(rng.choice([repr(mult), f'{mult:.6e}', f'{mult:.5f}']))
            if s['short'] and n > 1 and r == 1:
                mult, t = 0.0, ''
            sep = str(rng.choice([' ', '  ', '\t']))
            lines.append(str(rng.choice(['', '   '])) + sep.join(str(v) for v in box) + sep + t + (' ! row' if s['comments'] and rng.random() < 0.3 else ''))
            want.append(box + [mult, grid or 'ROOT', name or 'NONE', {'X': 'I', 'Y': 'J', 'Z': 'K', 'I': 'I', 'J': 'J', 'K': 'K'}[face[1]] + ('-' if 'MINUS' in rest else '')])
        if s['other'] and n and rng.random() < 0.5:
            lines += ['FAULTS', 'ENDFAULTS 5'] if rng.random() < 0.5 else ['POROSITY CON', '0.3']
    maybe()
    if len([t for t in s['tables'] if t[4]]) > 1:
        ctx.nontrivial()
    path = ctx.path('f.inc')
    with open(path, 'w') as fp:
        fp.write('\n'.join(lines) + ('\n' if s['eol'] else ''))
    for df in (rnf.load_nexus_fault_mult_table(path), rnf.load_nexus_fault_mult_table_from_list(lines), rnf.load_nexus_fault_mult_table_from_list([x + '\n' for x in lines])):
        eq(len(df), len(want), 'number of records')
        if not want:
            continue
        eq(list(df.columns), ['i1', 'i2', 'j1', 'j2', 'k1', 'k2', 'mult', 'grid', 'name', 'face'], 'columns')
        eq(list(df.index), list(range(len(want))), 'index')
        for k, w in enumerate(want):
            row = list(df.iloc[k])
            eq([int(v) for v in row[:6]], w[:6], f'box of record {k}')
            close(float(row[6]), w[6], 1e-12, f'multiplier of record {k}', rel = 1e-5)
            eq(row[7:], w[7:], f'grid, name and face of record {k}')


@check('lines', st.fixed_dictionaries(dict(seed = seeds, n = st.lists(st.integers(0, 6), max_size = 5), dup = st.booleans(), closed = st.booleans(), bad = st.sampled_from([None, None, None, 'open', 'two']), big = st.booleans())),
       quick = 120, rule = 'two lines')
def lines(s, ctx):
    """Simple files of lines, and their tidying."""
    rng = np.random.default_rng(s['seed'])
    sets = []
    path = ctx.path('l.txt')
    with open(path, 'w') as fp:
        for k, n in enumerate(s['n']):
            a = np.round(rng.uniform(-1000.0, 2000.0, (n, 3)), 3)
            if s['dup'] and n > 2:
                a[n // 2] = a[n // 2 - 1]
            if s['closed'] and n > 2:
                a[-1] = a[0]
            if s['big'] and n:
                a[0, :2] = 999.0
            for p in a:
                fp.write(' '.join(f'{v:.3f}' for v in p) + '\n' + ('\n' if rng.random() < 0.2 else ''))
            if not (s['bad'] == 'open' and k == len(s['n']) - 1):
                fp.write('999.0 999.0 999.0\n')
            if n:
                sets.append(a)
        if s['bad'] == 'two':
            fp.write('1.0 2.0\n')
    got = sl.read_lines(path)
    if s['bad'] == 'two' or (s['bad'] == 'open' and s['n'] and s['n'][-1]):
        eq(got, [], 'lines from badly formed file')
        return
    eq(len(got), len(sets), 'number of lines')
    if len(sets) > 1:
        ctx.nontrivial()
    for a, b in zip(got, sets):
        arr_eq(a, b, 'points of line')
        before = a.copy()
        p = sl.polygon_line(a)
        arr_eq(p, b[:-1] if len(b) > 1 and np.sum(np.abs(b[0] - b[-1])) <= 0.001 else b, 'polygon from line')
        d = sl.duplicate_vertices_removed(a)
        if len(b) < 3:
            exp = b
        else:
            keep = [b[0]]
            for q in b[1:]:
                if np.sum(np.abs(q - keep[-1])) > 0.001:
                    keep.append(q)
            exp = np.array(keep)
            if len(keep) > 1:
                exp[-1] = b[-1]
        arr_eq(d, exp, 'line without duplicates')
        arr_eq(a, before, 'line changed')
