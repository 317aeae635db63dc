"""P01: opening match-up files gives an object that indexes, block by block, exactly what the files hold."""
import os
import time
from datetime import datetime, timedelta

import numpy as np

import mu
import vh
from vh import uni

C = vh.Check(
    "P01",
    rule="A case is a generated set of match-up files (2-4 sensors of 1-5 covariates, 1-4 series of 1-9 match-ups, all four "
         "uncertainty types, optional and additional variables, f4/f8) opened through each accepted form of the path "
         "argument. Non-trivial: at least two series, or sensors with different numbers of covariates.",
    assumptions=["A sensor has the same number of covariates in every file that names it.",
                 "The oracle is the file model the case was written from, and the block order documented in the reader."],
    setup=lambda w: w.use_eiv(),
)


FILES = ["mu_%02d.nc", "10.nc", "9.nc", "B_b.nc", "a.nc", "aB.nc", "z.nc", "m.n.nc", "a b.nc", "A.nc", "aa.nc", "_1.nc"]
STRAY = ["notes.txt", "a.nc.bak", "b.ncx", "nc", "c.nc~", "nc.d"]


def before(net, paths, key, read):
    """Perhaps files of the same paths, with other data, have been opened earlier."""
    if sum(key) % 5 > 1:
        return
    other = dict(net, series=[dict(s, key=s["key"] + 1) for s in net["series"]])
    for i, p in enumerate(paths):
        os.rename(p, p + ".now")
        mu.write(mu.expand(other, i), p)
    read()
    for p in paths:
        os.remove(p)
        os.rename(p + ".now", p)


def opened(net, ctx, folder, form, **kw):
    models, paths = mu.write_all(net, folder)
    reader = vh.eiv(vh.MU + "matchupIO.MatchUpReader")
    n = len(models)
    key = [s["key"] for s in net["series"]]
    pick = [FILES[k] for k in np.argsort(uni((key, "files"), len(FILES)))]
    names = [FILES[0] % i for i in range(n)] if sum(key) % 3 == 0 or n > len(pick) else [pick[i].replace("%02d", "0") for i in range(n)]
    if form == "one":
        # The path of a file is that of a file of any name.
        path = os.path.join(folder, ["mu_00.nc", "a.nc4", "nc", "B.c.NC"][sum(key) % 4])
        os.rename(paths[0], path)
        before(net, [path], key, lambda: reader.open_matchup(path, **kw))
        return models[:1], reader.open_matchup(path, **kw)
    # Files are made in an order other than that of their names, of one folder or several, with others that are no match-ups.
    at = {"dir": [0] * n, "list": [i % 2 for i in range(n)], "dirs": [int(i >= (n + 1) // 2) for i in range(n)]}[form]
    dirs = [os.path.join(folder, d) for d in ("b", "a")]
    for d in dirs:
        os.mkdir(d)
    for i in reversed(range(n)):
        os.rename(paths[i], os.path.join(dirs[at[i]], names[i]))
    for d in dirs:
        for k, stray in enumerate(STRAY):
            if uni((key, "stray"), len(STRAY))[k] < 0.4:
                open(os.path.join(d, stray), "w").close()
    now = [os.path.join(dirs[at[i]], names[i]) for i in range(n)]
    before(net, now, key, lambda: reader.open_matchup(now, **kw))
    if form == "list":
        return models, reader.open_matchup(now, **kw)
    order = sorted(range(n), key=lambda i: (at[i], names[i]))
    return [models[i] for i in order], reader.open_matchup(dirs if form == "dirs" and n > 1 else dirs[0], **kw)


def nontrivial(models, ctx):
    ms = [m for d in models for m in (d["m1"], d["m2"])]
    ctx.nontrivial(len(models) > 1 or len(set(ms)) > 1)
    ctx.label("%d series" % len(models))


def cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({"net": mu.networks(), "form": st.sampled_from(["list", "dir", "dirs", "one"])})


def zoned():
    from hypothesis import strategies as st

    return st.tuples(cases(), st.sampled_from(["UTC", "UTC", "NPT-5:45", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0"])).map(
        lambda x: dict(x[0], tz=x[1]))


class local(object):
    """The computer is in a time zone."""

    def __init__(self, tz):
        self.tz = tz

    def __enter__(self):
        self.old = os.environ.get("TZ")
        os.environ["TZ"] = self.tz
        time.tzset()

    def __exit__(self, *a):
        os.environ.pop("TZ")
        if self.old is not None:
            os.environ["TZ"] = self.old
        time.tzset()


def seconds(t):
    return datetime(1970, 1, 1) + timedelta(seconds=int(t))


@C.prop("index", cases, quick=250)
def index(case, ctx):
    with vh.ws().tmp() as folder:
        models, mup = opened(case["net"], ctx, folder, case["form"])
    nontrivial(models, ctx)
    ctx.label(case["form"])
    names, ms = mu.sensor_order(models)
    idx = mup.idx
    Nm = [d["M"] for d in models]
    vh.equal(list(idx["Nm"]), Nm, "Nm")
    vh.equal(list(idx["cNm"]), [0] + list(np.cumsum(Nm)), "cNm")
    vh.equal(list(idx["sensors"]), names, "sensors")
    vh.equal(list(idx["sensor_ms"]), ms, "sensor_ms")
    vh.equal([list(p) for p in idx["Im"]], [[names.index(d["name1"]), names.index(d["name2"])] for d in models], "Im")
    bl = mu.blocks(models)
    vh.equal(list(idx["n_sensor"]), [names.index(models[i]["name" + n]) for i, n, c in bl], "n_sensor")
    vh.equal(list(idx["n_mu"]), [i + 1 for i, n, c in bl], "n_mu")
    vh.equal(list(idx["n_cov"]), [c + 1 for i, n, c in bl], "n_cov")
    sizes = [models[i]["M"] for i, n, c in bl]
    vh.equal(list(idx["N_var"]), sizes, "N_var")
    vh.equal(list(idx["idx"]), [0] + list(np.cumsum(sizes)), "idx")
    vh.equal(len(mup.values), sum(sizes), "number of values")
    orig = dict(mup._original_idx)
    vh.equal(sorted(orig), sorted(idx), "_original_idx")
    for k in ("Nm", "idx", "n_sensor"):
        vh.equal(list(orig[k]), list(idx[k]), "_original_idx " + k)


@C.prop("values", zoned, quick=250)
def values(case, ctx):
    with vh.ws().tmp() as folder, local(case["tz"]):
        models, mup = opened(case["net"], ctx, folder, case["form"])
    nontrivial(models, ctx)
    at = 0
    for i, n, c in mu.blocks(models):
        col = models[i]["X" + n][:, c].astype(np.float32)
        vh.close(mup.values[at:at + len(col)], col, 0, 0, "X%s[:, %d] of file %d" % (n, c, i))
        at += len(col)
    cat = np.concatenate
    vh.close(mup.ks, cat([d["K"] for d in models]), 1e-12, 0, "ks")
    for n in ("1", "2"):
        got = list(getattr(mup, "time" + n))
        vh.equal(got, [seconds(t) for d in models for t in d["time" + n]], "time" + n)
    for name in mu.OPT:
        got = getattr(mup, name)
        if not any(name in d for d in models):
            assert got is None, "%s is in no file, but is %r" % (name, got)
            continue
        vh.close(got, cat([d.get(name, np.full(d["M"], np.nan)) for d in models]), 0, 0, name)
        ctx.label("optional index", *(["partly missing"] if any(name not in d for d in models) else []))


@C.prop("additional", cases, quick=150)
def additional(case, ctx):
    with vh.ws().tmp() as folder:
        models, mup = opened(case["net"], ctx, folder, case["form"])
    nontrivial(models, ctx)
    want = sorted(set(a for d in models for a in d["add"]))
    vh.equal(sorted(mup.idx["additional_values_name"]), want, "additional variable names")
    vh.equal(tuple(mup.additional_values.shape), (sum(d["M"] for d in models), len(want)), "additional values shape")
    for name in want:
        cols = []
        for d in models:
            cols.append(mu.unfilled(d.get(name, np.full(d["M"], np.nan))))
        j = list(mup.idx["additional_values_name"]).index(name)
        vh.close(mup.additional_values[:, j], np.concatenate(cols), 1e-12, 0, name)
    ctx.label("%d additional" % len(want))


@C.prop("many", lambda: large(), quick=25)
def many(case, ctx):
    values(case, ctx)


def large():
    from hypothesis import strategies as st

    return st.tuples(mu.many(), st.sampled_from(["list", "dir", "dirs", "one"]), st.just("UTC")).map(
        lambda x: {"net": x[0], "form": x[1], "tz": x[2]})


def long():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({"net": st.one_of(mu.networks(min_series=8, max_series=14, max_M=3, max_m=3),
                                                   mu.networks(max_series=3, max_M=4, max_m=14)), "form": st.sampled_from(["list", "dir", "dirs"]),
                                  "tz": st.just("UTC")})


@C.prop("many series or covariates", long, quick=25)
def many_series(case, ctx):
    index(case, ctx)
    values(case, ctx)


@C.prop("switches", cases, quick=60)
def switches(case, ctx):
    """Leaving parts out does not change the parts that are read."""
    with vh.ws().tmp() as folder:
        models, paths = mu.write_all(case["net"], folder)
        reader = vh.eiv(vh.MU + "matchupIO.MatchUpReader")
        full = reader.open_matchup(paths)
        parts = [(u, a, reader.open_matchup(paths, open_uncertainty=u, open_additional_values=a))
                 for u, a in ((False, False), (True, False), (False, True))]
    nontrivial(models, ctx)
    for u, a, part in parts:
        vh.close(part.values, full.values, 0, 0, "values")
        vh.close(part.ks, full.ks, 0, 0, "ks")
        assert list(part.time1) == list(full.time1) and list(part.time2) == list(full.time2)
        for name in mu.OPT:
            x, y = getattr(part, name), getattr(full, name)
            assert (x is None) == (y is None) and (x is None or np.array_equal(x, y, equal_nan=True)), name
        if u:
            vh.equal([q.typeID for q in part.unc], [q.typeID for q in full.unc], "types of error")
            vh.equal((len(part.unck), len(part.w_matrices), len(part.u_matrices)),
                     (len(full.unck), len(full.w_matrices), len(full.u_matrices)), "uncertainties")
        else:
            assert part.unc is None and part.unck is None and part.w_matrices is None and part.u_matrices is None
        if a:
            vh.close(part.additional_values[:, np.argsort(part.idx["additional_values_name"])],
                     full.additional_values[:, np.argsort(full.idx["additional_values_name"])], 0, 0, "additional values")
        else:
            assert part.additional_values is None
        for k in ("Nm", "cNm", "Im", "sensors", "sensor_ms", "n_sensor", "n_mu", "n_cov", "N_var", "idx"):
            vh.equal(list(part.idx[k]), list(full.idx[k]), k)
