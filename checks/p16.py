"""P16: averages by period of time and by bin take every value into account once."""
import datetime as dt

import numpy as np

import vh
from vh import gauss, rng, uni

C = vh.Check(
    "P16",
    rule="A case is a set of up to 60 values with times (in any order, some on the boundaries of periods, with repeats) and a "
         "period, or with abscissae and bins, with or without a range. Non-trivial: at least two periods or bins hold values.",
    assumptions=["Periods without values are NaN.", "A bin's range is wider than zero."],
    setup=lambda w: w.use_eiv(),
)
PERIODS = {"hour": 3600, "day": 86400, "month": 30 * 86400, "year": 366 * 86400}


def time_cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "period": st.sampled_from(sorted(PERIODS)), "n": st.integers(1, 60), "key": st.integers(0, 2 ** 20),
        "start": st.integers(-10 ** 9, 4 * 10 ** 9), "span": st.integers(0, 40), "edge": st.sampled_from([0., 0.3, 1.]),
        "order": st.sampled_from(["random", "sorted", "reversed"]), "fraction": st.booleans(),
        "bad": st.lists(st.tuples(st.integers(0, 59), st.sampled_from([np.nan, np.inf, -np.inf])), max_size=2)})


def floor(t, period):
    n = {"year": 1, "month": 2, "day": 3, "hour": 4}[period]
    parts = list(t.timetuple())[:n] + [1, 1, 0][n - 1:2]
    return dt.datetime(*parts)


def follow(t, period):
    if period == "year":
        return dt.datetime(t.year + 1, 1, 1)
    if period == "month":
        return dt.datetime(t.year + t.month // 12, t.month % 12 + 1, 1)
    return t + dt.timedelta(seconds=PERIODS[period])


def near(got, want, mag, what):
    got = np.asarray(got, dtype=float)
    vh.equal(got.shape, want.shape, what + " shape")
    with np.errstate(invalid="ignore"):
        bad = ~((np.isnan(got) & np.isnan(want)) | (got == want) | (abs(got - want) <= 1e-12 * mag + 1e-300))
    assert not bad.any(), "%s %d: %r, expected %r" % (what, np.argwhere(bad)[0][0], got[bad][0], want[bad][0])


@C.prop("periods", time_cases, quick=800)
def periods(case, ctx):
    stats = vh.eiv("harmonisation.core.utils.stats")
    n, key, p = case["n"], case["key"], case["period"]
    seconds = np.floor(case["start"] + rng((key, "t"), n, 0, 1 + case["span"] * PERIODS[p]))
    if case["fraction"]:
        seconds += np.floor(8 * uni((key, "f"), n)) / 8.
    times = [dt.datetime(1970, 1, 1) + dt.timedelta(seconds=float(s)) for s in seconds]
    times = [floor(t, p) if e < case["edge"] else t for t, e in zip(times, uni((key, "e"), n))]
    if case["order"] != "random":
        times = sorted(times, reverse=case["order"] == "reversed")
    data = 10. * gauss((key, "v"), n) + 3.
    size = abs(data).max()
    # A value that is missing makes its average so.
    for i, v in case["bad"]:
        if i < n:
            data[i] = v
    want, starts = [], []
    at, last = floor(min(times), p), floor(max(times), p)
    while at <= last:
        vals = [v for v, t in zip(data, times) if floor(t, p) == at]
        want.append(sum(vals) / len(vals) if vals else np.nan)
        starts.append(at)
        at = follow(at, p)
    array = np.empty(n, dtype=object)
    array[:] = times
    keep = data.copy()
    with vh.quiet():
        got, got_times = stats.time_average(data, array, time_period=p)
    vh.equal(list(got_times), starts, "starts of periods")
    near(got, np.array(want), size, "average of period")
    assert ((data == keep) | np.isnan(keep)).all(), "values changed"
    vh.equal(list(array), times, "times afterwards")
    ctx.label(p)
    if sum(not np.isnan(w) for w in want) > 1:
        ctx.nontrivial()


def bin_cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({"n": st.integers(2, 60), "bins": st.integers(1, 25), "key": st.integers(0, 2 ** 20),
                                  "grid": st.booleans(), "range": st.sampled_from(["none", "inner", "outer", "exact", "from zero", "to zero"]),
                                  "order": st.sampled_from(["random", "runs", "sorted", "reversed"])})


@C.prop("bins", bin_cases, quick=800)
def bins(case, ctx):
    stats = vh.eiv("harmonisation.core.utils.stats")
    n, key, nb = case["n"], case["key"], case["bins"]
    # On a grid whose edges are exact in floating point, or anywhere.
    if case["grid"]:
        nb = 2 ** (nb % 5)
        X = np.floor(rng((key, "x"), n, 0, 33)) / 4. - 3.
        lo, hi = {"inner": (-1., 3.), "outer": (-7., 9.), "exact": (-3., 5.), "from zero": (0., 4.), "to zero": (-2., 0.), "none": (min(X), max(X))}[case["range"]]
    else:
        X = rng((key, "x"), n, -50., 80.)
        lo, hi = {"inner": (-20., 31.), "outer": (-60.5, 100.), "exact": (min(X), max(X)), "none": (min(X), max(X)),
                  "from zero": (0., 60.), "to zero": (-30., 0.)}[case["range"]]
    # As series of match-ups one after another, perhaps.
    if case["order"] == "runs":
        parts = 1 + int(2 * uni((key, "parts"), 1)[0]) + 1
        X = np.concatenate([np.sort(x) for x in np.array_split(X, parts)])
    elif case["order"] != "random":
        X = np.sort(X)[::-1 if case["order"] == "reversed" else 1]
    if not lo < hi:
        return
    Y = 5. * gauss((key, "y"), n) + 1.
    keep = list(X), list(Y)
    X_range = None if case["range"] == "none" else [[lo, hi], (lo, hi), np.array([lo, hi])][key % 3]
    with vh.quiet():
        avg, std, mid = stats.bin(Y, X, bins=nb, X_range=X_range)
    assert X_range is None or tuple(X_range) == (lo, hi), "range changed to %r" % (X_range,)
    vh.equal((list(X), list(Y)), keep, "arguments afterwards")
    width = (hi - lo) / nb
    near(mid, lo + (np.arange(nb) + 0.5) * width, abs(lo) + abs(hi), "centre of bin")
    t = (X - lo) / width
    k = np.clip(np.floor(t), 0, nb - 1).astype(int)
    inside = (X >= lo) & (X <= hi)
    # A value may be on either side of an edge that is not exact.
    doubtful = inside & (abs(t - np.round(t)) < 1e-9) & (X != lo) & (X != hi)
    if doubtful.any() and not (case["grid"] and np.log2(hi - lo) % 1 == 0):
        return
    want_a, want_s = np.full(nb, np.nan), np.full(nb, np.nan)
    for b in range(nb):
        v = Y[inside & (k == b)]
        if len(v):
            want_a[b] = sum(v) / len(v)
            want_s[b] = np.sqrt(sum((v - want_a[b]) ** 2) / len(v))
    near(avg, want_a, abs(Y).max(), "average of bin")
    near(std, want_s, 100 * abs(Y).max(), "standard deviation of bin")
    ctx.label("range " + case["range"])
    if (~np.isnan(want_a)).sum() > 1:
        ctx.nontrivial()
