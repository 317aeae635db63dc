"""P26: dates and times of the Fortran software are those of the calendar."""
import datetime
import os
import re

import numpy as np

import ftn
import vh

C = vh.Check(
    "P26",
    rule="A case is 1-40 Unix times of the years 1 to 9999, most of them within a second of midnight, of the end of a month or year or of "
         "the 32-bit range, with fractions of a second. Non-trivial: some time is not a whole number of seconds.",
    assumptions=["Dates are of the proleptic Gregorian calendar."],
    setup=lambda w: w.build_driver(),
)
EPOCH = datetime.datetime(1970, 1, 1)
FIRST, LAST = -62135596800, 253402300799


def times():
    from hypothesis import strategies as st

    day = st.one_of(st.integers(-4000, 30000), st.integers(FIRST // 86400 + 1, LAST // 86400 - 1),
                    st.builds(lambda y, m, d: (datetime.datetime(y, m, 1) - EPOCH).days + d, st.integers(2, 9998), st.integers(1, 12),
                              st.integers(-1, 1)))
    near = st.sampled_from([0., -1e-3, 1e-3, -1e-6, -1., 1., 0.5, -0.5, 0.999, 43200., -3600., 59.9995])
    whole = st.builds(lambda d, n: d * 86400. + n, day, near)
    edge = st.builds(lambda e, n: e + n, st.sampled_from([2. ** 31, -2. ** 31, 2. ** 32]), near)
    anything = st.floats(FIRST + 86400., LAST - 86400.)
    return st.lists(st.one_of(whole, whole, edge, anything), min_size=1, max_size=40)


@C.prop("dates", times, quick=300, thorough=8000)
def dates(case, ctx):
    ctx.nontrivial(any(t != np.floor(t) for t in case))
    with vh.ws().tmp() as d:
        out, _, _ = ftn.run(d, ["time %r" % t for t in case], head="plain")
    got = out["iso"] if isinstance(out["iso"], list) else [out["iso"]]
    for t, iso in zip(case, got):
        want = (EPOCH + datetime.timedelta(seconds=int(np.floor(t))))
        vh.equal(iso, "%04d%02d%02dT%02d%02d%02dZ" % (want.year, want.month, want.day, want.hour, want.minute, want.second), "date of %r" % t)


def spans():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({"year": st.integers(0, 9997), "key": st.integers(0, 10 ** 6)})


@C.prop("days", spans, quick=40, thorough=2000,
        explicit=[{"year": y, "key": 0} for y in (1896, 1900, 1904, 1968, 1972, 1996, 2000, 2004, 2037, 2100, 2104, 2400, 4)])
def days(case, ctx):
    """Every day of a year and of the days around it, at some time of the day."""
    first = int((case["year"] + vh.uni((case["key"], "y"), 1)[0] * 9997) % 9997) + 2 if case["key"] else max(2, case["year"])
    start = (datetime.datetime(first, 1, 1) - EPOCH).days
    ctx.nontrivial(first % 4 == 0)
    at = np.floor(vh.rng((case["key"], first, "t"), 369, -1., 86401.)).clip(0, 86399)
    ts = [(start - 1 + i) * 86400. + at[i] for i in range(369)]
    with vh.ws().tmp() as d:
        out, _, _ = ftn.run(d, ["time %r" % float(t) for t in ts], head="plain")
    for t, iso in zip(ts, out["iso"]):
        want = EPOCH + datetime.timedelta(seconds=int(t))
        vh.equal(iso, "%04d%02d%02dT%02d%02d%02dZ" % (want.year, want.month, want.day, want.hour, want.minute, want.second), "date of %r" % t)


def zones():
    from hypothesis import strategies as st
    # gfortran loses the sign of negative offsets of less than an hour.
    return st.fixed_dictionaries({"offset": st.one_of(st.integers(-12 * 4, -4), st.integers(0, 14 * 4))})


@C.prop("now", zones, quick=30, thorough=400)
def now(case, ctx):
    """Messages have the time at which they were written, in the zone of the system."""
    ctx.nontrivial(case["offset"] % 4 != 0)
    minutes = case["offset"] * 15
    h, m = divmod(abs(minutes), 60)
    # POSIX zones are west of Greenwich
    tz = "XXX%s%02d:%02d" % ("-" if minutes >= 0 else "+", h, m)
    with vh.ws().tmp() as d:
        with open(os.path.join(d, "job.nml"), "w") as f:
            f.write(ftn.nml("job", []))
        t0 = datetime.datetime.now(datetime.timezone.utc)
        _, text, _ = ftn.run(d, ["config"], env={"TZ": tz})
        t1 = datetime.datetime.now(datetime.timezone.utc)
    found = re.findall(r"^(\S+) \[warning\]", text, re.M)
    assert found, text[:300]
    for s in found:
        t = datetime.datetime.strptime(s, "%Y-%m-%dT%H:%M:%S.%f%z")
        vh.equal(int(t.utcoffset().total_seconds()), minutes * 60, "zone of " + s)
        ms = datetime.timedelta(milliseconds=2)
        assert t0 - ms <= t <= t1 + ms, (s, str(t0), str(t1))
