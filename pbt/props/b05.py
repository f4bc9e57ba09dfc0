"""B05: a list of datetimes held by python's calendar as the model of each series."""
import datetime as dt
import numpy as np
from pbt.core import check, st, ok, eq, arr_eq, close, fail, refuses, raises
from pbt.lib.gen import seeds
import resqpy.model as rq
import resqpy.time_series as rqts
import resqpy.olio.uuid as bu
from resqpy.time_series._time_series import colloquial_date, check_timestamp
from resqpy.time_series._functions import simplified_timestamp, cleaned_timestamp, geologic_time_str
from resqpy.time_series._any_time_series import AnyTimeSeries

EPOCH = dt.datetime(2000, 1, 1)


def parse(t):
    return dt.datetime.fromisoformat(t.rstrip('Z'))


def form(d, f):
    """One of the accepted textual forms of a timestamp; f: 0 full with Z, 1 full, 2 date only where possible."""
    if f == 2 and d.time() == dt.time(0):
        return d.date().isoformat()
    return d.isoformat() + ('Z' if f != 1 else '')


# an instant as [days since 2000, seconds in day, microseconds, form]
instants = st.tuples(st.integers(-20000, 20000) | st.integers(0, 3), st.just(0) | st.integers(0, 86399), st.sampled_from([0, 0, 0, 588000, 500, 999999]),
                     st.integers(0, 2))


def to_dt(i):
    return EPOCH + dt.timedelta(days = i[0], seconds = i[1], microseconds = i[2])


def text(i):
    return form(to_dt(i), i[3])


ops = st.one_of(
    st.tuples(st.just('add'), instants), st.tuples(st.just('insert'), instants), st.tuples(st.just('insert'), instants),
    st.tuples(st.just('days'), st.integers(0, 800) | st.sampled_from([0.5, 1.25, 0.1])),
    st.tuples(st.just('dur'), st.tuples(st.integers(0, 30), st.integers(0, 50), st.integers(0, 100), st.integers(0, 5000))),
    st.tuples(st.just('back'), st.tuples(st.integers(-30, -1), st.just(0), st.just(0), st.just(0))), st.tuples(st.just('store'), st.booleans()))


@st.composite
def histories(draw):
    return dict(first = draw(st.none() | instants), regular = [draw(st.none() | st.integers(0, 4)) for _ in range(4)],
                ops = draw(st.lists(ops, max_size = 10)), queries = draw(st.lists(instants, min_size = 1, max_size = 5)), jitter = draw(st.integers(-2, 2)))


def verify(ts, model, queries, ctx):
    n = len(model)
    eq(ts.number_of_timestamps(), n, 'number of timestamps')
    got = [parse(t) for t in ts.timestamps]
    eq(got, model, 'timestamps')
    eq(ts.datetimes(), model, 'datetimes')
    eq(list(ts.iter_timestamps()), list(ts.timestamps), 'iter_timestamps')
    ok(all(a <= b for a, b in zip(got, got[1:])), 'not in increasing order', ts.timestamps)
    for i in range(-n - 2, n + 2):
        t = ts.timestamp(i)
        if -n <= i < n:
            eq(parse(t), model[i], f'timestamp({i})')
            eq(ts.timestamps[ts.index_for_timestamp(t)], t, 'index_for_timestamp')
            if i >= 0 and ts.timestamps.count(t) == 1:
                eq(ts.index_for_timestamp(t), i, 'index_for_timestamp')
        else:
            ok(t is None, 'timestamp out of range', t)
    if n:
        eq(parse(ts.last_timestamp()), model[-1], 'last_timestamp')
    else:
        ok(ts.last_timestamp() is None)
    for q in queries:
        d, t = to_dt(q), text(q)
        later = [i for i in range(n) if model[i] <= d]
        i = ts.index_for_timestamp_not_later_than(t)
        if not later:
            ok(i is None, 'not later than', i)
        else:
            ok(i is not None and model[i] == model[later[-1]], 'not later than', t, i, later[-1])
        earlier = [i for i in range(n) if model[i] >= d]
        i = ts.index_for_timestamp_not_earlier_than(t)
        if not earlier:
            ok(i is None, 'not earlier than', i)
        else:
            ok(i is not None and model[i] == model[earlier[0]], 'not earlier than', t, i, earlier[0])
        i = ts.index_for_timestamp_closest_to(t)
        if n == 0:
            ok(i is None)
        else:
            ok(0 <= i < n and abs(model[i] - d) == min(abs(m - d) for m in model), 'closest to', t, i, ts.timestamps)
            ctx.label('between' if later and earlier else 'outside')
        if t not in ts.timestamps:
            ok(ts.index_for_timestamp(t) is None, 'index for absent timestamp')
    for i in range(-1, n + 1):
        for j in range(-1, n + 1):
            d = ts.duration_between_timestamps(i, j)
            days = ts.days_between_timestamps(i, j)
            if 0 <= i <= j < n:
                eq(d.duration, model[j] - model[i], 'duration_between_timestamps')
                eq(days, (model[j] - model[i]).days, 'days_between_timestamps')
                eq(parse(d.timestamp_after_duration(ts.timestamp(i))), model[j], 'timestamp after duration')
                eq(parse(d.timestamp_before_duration(ts.timestamp(j))), model[i], 'timestamp before duration')
            else:
                ok(d is None and days is None, 'duration for invalid indices', i, j)
        if 0 <= i < n:
            eq(ts.duration_since_start(i).duration, model[i] - model[0], 'duration_since_start')
            eq(ts.days_since_start(i), (model[i] - model[0]).days, 'days_since_start')
        else:
            ok(ts.duration_since_start(i) is None)
        if 1 <= i < n:
            eq(ts.step_duration(i).duration, model[i] - model[i - 1], 'step_duration')
            eq(ts.step_days(i), (model[i] - model[i - 1]).days, 'step_days')
        else:
            ok(ts.step_duration(i) is None and ts.step_days(i) is None)


@check('history', histories(), quick = 500, thorough = 12000, shards = 3,
       rule = 'histories of additions, insertions, extensions and store / reopen, in all accepted timestamp forms; non-trivial when the series has three '
       'or more timestamps')
def history(spec, ctx):
    m = ctx.new_model()
    f = spec['first']
    d, mo, q, y = spec['regular']
    ts = rqts.TimeSeries(m, first_timestamp = None if f is None else text(f), daily = d, monthly = mo, quarterly = q, yearly = y, title = 'a & b',
                         extra_metadata = {'x': 'y'})
    model = []
    if f is not None:
        model = [to_dt(f)]
        for k, days in ((d, 1), (mo, 30), (q, 90), (y, 365)):
            for _ in range(k or 0):
                model.append(model[-1] + dt.timedelta(days = days))
    stored = 0
    for op, arg in spec['ops']:
        if op == 'add':
            t = to_dt(arg)
            if model and t <= model[-1]:
                with refuses('timestamp not after the last'):
                    ts.add_timestamp(text(arg))
            else:
                ts.add_timestamp(text(arg))
                model.append(t)
        elif op == 'insert':
            ts.add_timestamp(text(arg), allow_insertion = True)
            model.append(to_dt(arg))
            model.sort()
        elif op == 'days':
            if model:
                ts.extend_by_days(arg)
                model.append(model[-1] + dt.timedelta(days = arg))
            else:
                with refuses('extension of an empty series'):
                    ts.extend_by_days(arg)
        elif op in ('dur', 'back'):
            du = rqts.TimeDuration(days = arg[0], hours = arg[1], minutes = arg[2], seconds = arg[3])
            delta = dt.timedelta(days = arg[0], hours = arg[1], minutes = arg[2], seconds = arg[3])
            eq(du.duration, delta, 'TimeDuration')
            if op == 'back' or not model:
                with refuses('negative extension or extension of empty series'):
                    ts.extend_by_duration(du)
            else:
                ts.extend_by_duration(du)
                model.append(model[-1] + delta)
        elif op == 'store' and model:
            ts.create_xml(reuse = False)
            eq(rqts.timeframe_for_time_series_uuid(m, ts.uuid), 'human')
            ts = rqts.TimeSeries(m, uuid = ts.uuid)
            if arg:
                m = ctx.reopen(m)
                ts = rqts.TimeSeries(m, uuid = ts.uuid)
            eq(ts.title, 'a & b')
            eq(ts.extra_metadata.get('x'), 'y')
            stored += 1
            verify(ts, model, [], ctx)
            keep = list(ts.timestamps)
            ts = rqts.TimeSeries(m, title = 'a & b', extra_metadata = {'x': 'y'})  # continue the history with a new object
            for t in keep:
                ts.add_timestamp(t, allow_insertion = True)
    near = [spec['queries'][0]]
    if model:
        mid = model[len(model) // 2] + dt.timedelta(seconds = spec['jitter'])
        near = [[(mid - EPOCH).days, (mid - EPOCH).seconds, (mid - EPOCH).microseconds, 0]]
        gap = model[0] + (model[min(1, len(model) - 1)] - model[0]) * 0.7
        near.append([(gap - EPOCH).days, (gap - EPOCH).seconds, 0, 0])
    verify(ts, model, spec['queries'] + near, ctx)
    if stored:
        ctx.label('stored')
    ctx.nontrivial(len(model) > 2)


@st.composite
def list_cases(draw):
    # distinct instants in whole seconds
    series = [draw(st.lists(st.tuples(st.integers(0, 4000), st.just(0) | st.integers(0, 86399)), min_size = 1, max_size = 7, unique = True)) for _ in
              range(draw(st.integers(1, 4)))]
    years = [draw(st.lists(st.integers(1, 400000000) | st.just(0), min_size = 1, max_size = 6, unique = True)) for _ in range(2)]
    return dict(series = series, years = years, seed = draw(seeds), sign = draw(st.booleans()), shift = draw(st.sampled_from([0, 0, 1, 2, 3, -2, 86400])))


@check('collections', list_cases(), quick = 350, thorough = 6000, shards = 2,
       rule = 'series from lists, merging, selection, equivalence, storage, human and geologic; non-trivial when several timestamps are merged')
def collections(spec, ctx):
    rng = np.random.default_rng(spec['seed'])
    m = ctx.new_model()
    made, models = [], []
    for s in spec['series']:
        ds = [EPOCH + dt.timedelta(days = a, seconds = b) for a, b in s]
        ts = rqts.time_series_from_list([form(d, 0 if k % 2 else 2) for k, d in enumerate(ds)], parent_model = m, title = 'ts')
        ok(isinstance(ts, rqts.TimeSeries))
        ds.sort()
        verify(ts, ds, [], ctx)
        ts.create_xml(reuse = False)
        made.append(ts)
        models.append(ds)
    geo = []
    for k, ys in enumerate(spec['years']):
        signed = [(-v if spec['sign'] else v) for v in ys]
        g = rqts.GeologicTimeSeries.from_year_list(m, signed, title = 'geo', extra_metadata = {'m': 'n'}) if k else rqts.time_series_from_list(
            signed, parent_model = m, title = 'geo')
        ok(isinstance(g, rqts.GeologicTimeSeries), 'not a geologic series')
        want = sorted(-v for v in ys)
        eq(g.timestamps, want, 'geologic timestamps')
        g.create_xml(reuse = False)
        geo.append(g)
        for i, v in enumerate(want):
            eq(g.timestamp(i, as_string = False), v)
            eq(g.index_for_timestamp(v), i, 'index for geologic timestamp')
            t = g.timestamp(i)
            eq(t, geologic_time_str(v))
            ok(t.endswith(' Ma'))
            ok(abs(abs(float(t[:-3])) * 1e6 - abs(v)) <= (1000000 if abs(v) >= 10000000 else 501), 'geologic time string', t, v)
            eq(g.timestamp(g.index_for_timestamp(t)), t)
            eq(simplified_timestamp(v), t)
        eq(list(g.iter_timestamps(as_string = False)), want)
        eq(g.last_timestamp(as_string = False), want[-1])
    m = ctx.reopen(m)
    for ts, ds in zip(made, models):
        t2 = rqts.any_time_series(m, ts.uuid)
        ok(isinstance(t2, rqts.TimeSeries))
        verify(t2, ds, [], ctx)
        ok(t2.is_equivalent(ts) and ts == t2, 'reloaded series is not equivalent')
        eq(t2.title, 'ts')
        with refuses('loading a human series as geologic'):
            rqts.GeologicTimeSeries(m, uuid = ts.uuid)
    for g in geo:
        eq(rqts.timeframe_for_time_series_uuid(m, g.uuid), 'geologic')
        g2 = rqts.any_time_series(m, g.uuid)
        ok(isinstance(g2, rqts.GeologicTimeSeries))
        eq(g2.timestamps, g.timestamps, 'reloaded geologic timestamps')
        ok(g2.is_equivalent(g))
        with refuses('loading a geologic series as human'):
            rqts.TimeSeries(m, uuid = g.uuid)
    eq(bool(geo[0].is_equivalent(geo[1])), geo[0].timestamps == geo[1].timestamps, 'equivalence of geologic series')
    ok(not made[0].is_equivalent(geo[0]), 'human and geologic series equivalent')
    # merging
    pick = [int(k) for k in rng.permutation(len(made))]
    merged, uid, sources = rqts.merge_timeseries_from_uuid(m, [made[k].uuid for k in pick])
    want = sorted(set(d for k in pick for d in models[k]))
    verify(merged, want, [], ctx)
    ok(bu.matching_uuids(uid, merged.uuid))
    eq([str(s.uuid) for s in sources], [str(made[k].uuid) for k in pick], 'list of merged series')
    mg, _, _ = rqts.merge_timeseries_from_uuid(m, [g.uuid for g in geo])
    eq(mg.timestamps, sorted(set(geo[0].timestamps + geo[1].timestamps)), 'merged geologic series')
    with refuses('merging human and geologic series'):
        rqts.merge_timeseries_from_uuid(m, [made[0].uuid, geo[0].uuid])
    # selection
    n = len(want)
    idx = [int(i) for i in rng.permutation(n)[:max(1, n // 2)]]
    sel = rqts.selected_time_series(merged, idx, title = 'sel')
    eq([parse(t) for t in sel.timestamps], [want[i] for i in sorted(idx)], 'selected series')
    eq(merged.number_of_timestamps(), n, 'selection modified the source')
    gs = rqts.selected_time_series(geo[0], [0], title = 'sel')
    eq(gs.timestamps, geo[0].timestamps[:1])
    # equivalence to a tolerance, and reuse
    k = int(rng.integers(n))
    moved = list(want)
    moved[k] = moved[k] + dt.timedelta(seconds = spec['shift'])
    other = rqts.TimeSeries(m, title = 'other')
    for d in sorted(moved):
        other.add_timestamp(form(d, 0), allow_insertion = True)
    eq_want = all(abs(a - b) <= dt.timedelta(seconds = 1) for a, b in zip(sorted(moved), want))
    eq(bool(merged.is_equivalent(other)), eq_want, 'equivalence')
    eq(bool(merged.is_equivalent(other, tol_seconds = 2)), all(abs(a - b) <= dt.timedelta(seconds = 2) for a, b in zip(sorted(moved), want)), 'equivalence to 2 s')
    short = rqts.TimeSeries(m, title = 'short')
    for d in want[:-1]:
        short.add_timestamp(form(d, 0))
    ok(not merged.is_equivalent(short) and not short.is_equivalent(merged), 'series of different lengths are equivalent')
    ok(not merged.is_equivalent(None))
    merged.create_xml(reuse = False)
    n_parts = len(m.parts(obj_type = 'TimeSeries'))
    again = rqts.time_series_from_list([form(d, 0) for d in want], parent_model = m)
    again.create_xml(reuse = True)
    eq(len(m.parts(obj_type = 'TimeSeries')), n_parts, 'equivalent series was not reused')
    ok(rqts.TimeSeries(m, uuid = again.uuid).is_equivalent(merged))
    ctx.nontrivial(len(want) > 2 and len(made) > 1)


@check('duration', st.tuples(instants, instants, st.tuples(*[st.integers(-400, 400)] * 4)), quick = 1000, thorough = 20000,
       rule = 'durations from pairs of timestamps and from components, and text forms; non-trivial always')
def duration(spec, ctx):
    a, b, c = spec
    da, db = to_dt(a), to_dt(b)
    du = rqts.TimeDuration(earlier_timestamp = text(a), later_timestamp = text(b))
    eq(du.duration, db - da, 'duration between timestamps')
    eq(parse(du.timestamp_after_duration(text(a))), db, 'after duration')
    eq(parse(du.timestamp_before_duration(text(b))), da, 'before duration')
    du = rqts.TimeDuration(days = c[0], hours = c[1], minutes = c[2], seconds = c[3])
    delta = dt.timedelta(days = c[0], hours = c[1], minutes = c[2], seconds = c[3])
    eq(du.duration, delta)
    t = du.timestamp_after_duration(text(a))
    eq(parse(t), da + delta, 'after duration')
    check_timestamp(t)
    eq(parse(du.timestamp_before_duration(t)), da, 'adding then subtracting a duration')
    eq(parse(du.timestamp_after_duration(du.timestamp_before_duration(text(b)))), db, 'subtracting then adding a duration')
    eq(rqts.TimeDuration(days = c[0]).duration, dt.timedelta(days = c[0]))
    eq(colloquial_date(text(a)), da.strftime('%d/%m/') + f'{da.year:4}', 'colloquial date')
    eq(colloquial_date(text(a), usa_date_format = True), da.strftime('%m/%d/') + f'{da.year:4}', 'US date')
    w = da.replace(microsecond = 0)
    for f in range(3):
        t = form(w, f)
        eq(parse(cleaned_timestamp(t)), w, 'cleaned timestamp')
        eq(dt.datetime.fromisoformat(simplified_timestamp(t)), w, 'simplified timestamp')
    ok(cleaned_timestamp(None) is None and simplified_timestamp(None) is None)
    for bad in ('2020-13-01', 'yesterday', '2020-02-30T00:00:00Z', '01/02/2020'):
        with refuses('badly formed timestamp ' + bad, ValueError):
            check_timestamp(bad)
        with refuses('badly formed timestamp ' + bad, ValueError):
            rqts.TimeSeries(rq.Model(), first_timestamp = bad)
    ctx.nontrivial()
