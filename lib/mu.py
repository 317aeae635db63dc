"""Match-up files: a generator of whole harmonisation data sets, written with netCDF4 alone (none of the code under test).

A case ("net") is plain JSON:

    {"sensors": [{"name", "m"}...],
     "series": [{"pair": [a, b], "M", "key", "t": [types of X1, types of X2],
                 "g": [[group, w variant, u variant] per structured covariate], "wc": columns per group, "rev": bool,
                 "opt": [names of the optional index variables], "add": [names of additional variables], "f4": bool,
                 "t0": first time}...]}

`expand` turns a series into arrays; `write` puts them into a file."""

import os

import numpy as np
from vh import rng, uni

OPT = ["across_track_index1", "across_track_index2", "along_track_index1", "along_track_index2"]
ADD = ["nominal_BT1", "lat", "aux_3", "BT11", "Kr_bias", "time1_offset", "x1", "Time2", "LAT"]
NAMES = ["m02", "n19", "n1", "aatsr", "S-1", "noaa 16", "N19", "1", "noaa 16 channel 4", "noaa 16 channel 5"]


def networks(max_sensors=4, max_series=4, max_m=5, max_M=9, types=(1, 2, 3, 4), min_M=1, equal_m=False, opt=True,
             refs=0, min_series=1, groups=3, kinds=2):
    from hypothesis import strategies as st

    @st.composite
    def net(draw):
        ns = draw(st.integers(2, max_sensors))
        names = draw(st.permutations(NAMES))[:ns]
        ms = [draw(st.integers(1, max_m)) for _ in range(ns)]
        if equal_m:
            ms = [ms[0]] * ns
        if equal_m == "nonref":
            ms = [ms[0]] + [ms[1]] * (ns - 1)
        ms[:refs] = [1] * refs
        sensors = [{"name": n, "m": m} for n, m in zip(names, ms)]
        series = []
        for _ in range(draw(st.integers(min_series, max_series))):
            a = draw(st.integers(0, ns - 1))
            b = (a + draw(st.integers(1, ns - 1))) % ns
            series.append(draw(one_series(a, b, ms[a], ms[b])))
        return {"sensors": sensors, "series": series}

    @st.composite
    def one_series(draw, a, b, ma, mb):
        M = draw(st.integers(min_M, max_M))
        t = [[draw(st.sampled_from(types if k >= refs else (1,))) for _ in range(m)] for k, m in ((a, ma), (b, mb))]
        nw = sum(x in (3, 4) for x in t[0] + t[1])
        g = [[draw(st.integers(0, groups - 1)), draw(st.integers(0, 1)), draw(st.integers(0, kinds - 1))] for _ in range(nw)]
        s = {"pair": [a, b], "M": M, "key": draw(st.integers(0, 2 ** 20)), "t": t, "g": g,
             "wc": [draw(st.integers(1, M + 4)) for _ in range(groups)], "rev": draw(st.booleans()),
             "f4": draw(st.booleans()), "t0": draw(st.integers(0, 2 * 10 ** 9)) + draw(st.sampled_from([0, 0, 2 * 10 ** 9])),
             "opt": [], "add": []}
        if opt:
            s["opt"] = draw(st.lists(st.sampled_from(OPT), unique=True, max_size=4))
            s["add"] = draw(st.lists(st.sampled_from(ADD), unique=True, max_size=4))
        return s

    return net()


def larger(**kw):
    """Networks of many series, or of many covariates with many matrices."""
    from hypothesis import strategies as st

    return st.one_of(networks(**dict(kw, max_m=min(kw.get("max_m", 2), 2), min_series=10, max_series=16, max_M=5)),
                     networks(**dict(kw, max_m=13, max_series=2, groups=8)))


def many(max_series=3, **kw):
    """Networks of series of up to thousands of match-ups."""
    from hypothesis import strategies as st

    def enlarge(x):
        net, key = x
        return dict(net, series=[dict(s, M=int(10 ** rng((key, i, "M"), 1, 2., 3.7)[0]),
                                      wc=[int(w) for w in 10 ** rng((key, i, "wc"), len(s["wc"]), 0., 2.3)]) for i, s in enumerate(net["series"])])

    return st.tuples(networks(max_series=max_series, **kw), st.integers(0, 2 ** 20)).map(enlarge)


def w_matrix(key, M, c):
    """(indptr, indices, data) of a W matrix with M rows, whose last column c - 1 is used."""
    width = (1 + np.floor(uni((key, "k"), M) * min(c, 4))).astype(int)
    last = np.floor(uni((key, "e"), M) * c).astype(int)
    last = np.maximum(last, width - 1)
    at = int(uni((key, "at"), 1)[0] * M)
    last[at] = c - 1
    indices = np.concatenate([np.arange(l - w + 1, l + 1) for l, w in zip(last, width)])
    indptr = np.concatenate([[0], np.cumsum(width)])
    data = rng((key, "v"), len(indices), 0.05, 1.0)
    return indptr, indices, data


def unfilled(v):
    """Values of an additional variable, NaN where it has the fill value (in its own precision)."""
    v = np.array(v)
    bad = (v == v.dtype.type(-1e30)) if v.dtype.kind == "f" else np.zeros(v.shape, bool)
    v = v.astype(float)
    v[bad] = np.nan
    return v


def varying(d, n, key):
    """Factors of systematic uncertainties: the size of an effect may differ between match-ups."""
    f = np.ones((d["M"], d["m" + n]))
    for c in np.flatnonzero(d["uncertainty_type" + n] == 2):
        if uni((key, "vary", n, int(c)), 1)[0] < 0.4:
            f[:, c] = rng((key, "vary", n, int(c), "f"), d["M"], 0.5, 2.)
    return f


def expand(net, i):
    """Series i as a dict of arrays (the model of its file)."""
    s = net["series"][i]
    k, M = s["key"], s["M"]
    f = np.float32 if s["f4"] else np.float64
    # Three in four files are netCDF-3, for speed.
    d = {"fmt": "NETCDF4" if k % 4 == 0 else "NETCDF3_64BIT_OFFSET", "name1": net["sensors"][s["pair"][0]]["name"], "name2": net["sensors"][s["pair"][1]]["name"], "M": M}
    q = 0
    use_w, use_u = [[], []], [[], []]
    groups_w, groups_u = [], []
    for side in (0, 1):
        n = str(side + 1)
        m = net["sensors"][s["pair"][side]]["m"]
        d["m" + n] = m
        types = np.array(s["t"][side], dtype=np.int32)
        d["uncertainty_type" + n] = types
        d["X" + n] = rng((k, i, "X", n), (M, m), -400., 900.).astype(f)
        ur = rng((k, i, "Ur", n), (M, m), 0.1, 3.)
        us = np.repeat(rng((k, i, "Us", n), (1, m), 0.1, 3.), M, axis=0)
        us *= varying(d, n, (k, i))
        ur[:, types > 2] = 0.
        us[:, (types == 1) | (types == 3)] = 0.
        d["Ur" + n], d["Us" + n] = ur.astype(f), us.astype(f)
        for t in types:
            if t > 2:
                g, wv, uv = s["g"][q]
                q += 1
                for lst, key in ((groups_w, (g, wv)), (groups_u, (g, uv))):
                    if key not in lst:
                        lst.append(key)
                use_w[side].append((g, wv))
                use_u[side].append((g, uv))
            else:
                use_w[side].append(None)
                use_u[side].append(None)
    d["K"] = rng((k, i, "K"), M, -5., 5.).astype(f)
    d["Kr"] = rng((k, i, "Kr"), M, 0.05, 1.).astype(f)
    d["Ks"] = rng((k, i, "Ks"), M, 0.05, 1.).astype(f)
    step = rng((k, i, "dt"), M, 0., 90.)
    d["time1"] = s["t0"] + np.cumsum(step)
    d["time2"] = d["time1"] + rng((k, i, "t2"), M, 3., 200.)
    for name in s["opt"]:
        low, high = ((0., 400.), (0., 1.) if k % 5 == 0 else (0., 400.), (-60., 60.), (30000., 3e6))[k // 2 % 4]
        d[name] = np.floor(rng((k, i, name), M, low, high)).astype(np.int32)
    for name in s["add"]:
        v = rng((k, i, name), M, -300., 300.)
        if name != "lat":
            v[uni((k, i, name, "fill"), M) < 0.2] = -1e30
            big = uni((k, i, name, "big"), M)
            v = np.where(big < 0.03, -2.5e30, np.where(big < 0.06, 1e30, np.where(big < 0.09, -1e29, v)))
        if name == "aux_3" and k % 2:
            d[name] = np.where(abs(v) > 1e20, 0, v).astype(np.int32)
        else:
            d[name] = v.astype(np.float32 if (k + len(name)) % 3 == 0 else np.float64)
    d["add"] = list(s["add"])
    if groups_w:
        if s["rev"]:
            groups_w.reverse()
            groups_u.reverse()
        d["w"] = [w_matrix((k, i, g), M, s["wc"][g[0]]) for g in groups_w]
        d["u"] = [rng((k, i, g, "u"), s["wc"][g[0]], 0.1, 2.) for g in groups_u]
        for side in (0, 1):
            n = str(side + 1)
            d["w_matrix_use" + n] = np.array([0 if g is None else groups_w.index(g) + 1 for g in use_w[side]], np.int32)
            d["u_matrix_use" + n] = np.array([0 if g is None else groups_u.index(g) + 1 for g in use_u[side]], np.int32)
    else:
        d["w"], d["u"] = [], []
    # Some files hold matrices or times in single precision.
    single = lambda v: np.asarray(v, np.float32).astype(float)
    if k % 5 == 1:
        d["w"] = [(r, c, single(v)) for r, c, v in d["w"]]
    if k % 7 in (1, 2):
        d["u"] = [single(u) for u in d["u"]]
    if k % 11 == 1:
        d["time1"], d["time2"] = single(d["time1"]), single(d["time2"])
    d["single"] = [k % 5 == 1, k % 7 in (1, 2), k % 11 == 1]
    return d


def write(d, path, drop=()):
    from netCDF4 import Dataset

    ds = Dataset(path, "w", format=d.get("fmt", "NETCDF4"))
    ds.sensor_1_name, ds.sensor_2_name = d["name1"], d["name2"]
    ds.createDimension("M", d["M"])
    ds.createDimension("m1", d["m1"])
    ds.createDimension("m2", d["m2"])

    def var(name, dims, data, dtype=None):
        if name not in drop:
            ds.createVariable(name, dtype or np.asarray(data).dtype, dims)[:] = data

    def real(i, *values):
        """Type of the variable for values (of d["single"][i]): single precision only if this keeps them."""
        return "f4" if d.get("single", [0] * 3)[i] and all((np.float32(v) == v).all() for v in values) else "f8"

    for n in ("1", "2"):
        for v in ("X", "Ur", "Us"):
            var(v + n, ("M", "m" + n), d[v + n])
        var("uncertainty_type" + n, ("m" + n,), d["uncertainty_type" + n], "i4")
        var("time" + n, ("M",), d["time" + n], real(2, d["time1"], d["time2"]))
    for v in ("K", "Kr", "Ks"):
        var(v, ("M",), d[v])
    for v in OPT:
        if v in d:
            var(v, ("M",), d[v], "i4")
    for v in d.get("add", []):
        var(v, ("M",), d[v])
    if d["w"]:
        ds.createDimension("w_matrix_count", len(d["w"]))
        ds.createDimension("w_matrix_row_count", len(d["w"][0][0]))
        ds.createDimension("w_matrix_nnz_sum", sum(len(w[1]) for w in d["w"]))
        ds.createDimension("u_matrix_count", len(d["u"]))
        ds.createDimension("u_matrix_row_count_sum", sum(len(u) for u in d["u"]))
        var("w_matrix_nnz", ("w_matrix_count",), [len(w[1]) for w in d["w"]], "i4")
        var("w_matrix_row", ("w_matrix_count", "w_matrix_row_count"), [w[0] for w in d["w"]], "i4")
        var("w_matrix_col", ("w_matrix_nnz_sum",), np.concatenate([w[1] for w in d["w"]]), "i4")
        var("w_matrix_val", ("w_matrix_nnz_sum",), np.concatenate([w[2] for w in d["w"]]), real(0, *[w[2] for w in d["w"]]))
        var("u_matrix_row_count", ("u_matrix_count",), [len(u) for u in d["u"]], "i4")
        var("u_matrix_val", ("u_matrix_row_count_sum",), np.concatenate(d["u"]), real(1, *d["u"]))
        for v in ("w_matrix_use1", "w_matrix_use2", "u_matrix_use1", "u_matrix_use2"):
            var(v, ("m" + v[-1],), d[v], "i4")
    ds.close()


def write_all(net, folder):
    """(models, paths), file names sorted in series order."""
    models, paths = [], []
    for i in range(len(net["series"])):
        d = expand(net, i)
        p = os.path.join(folder, "mu_%02d.nc" % i)
        write(d, p)
        models.append(d)
        paths.append(p)
    return models, paths


def sensor_order(models):
    """Sensor names in the order the files first name them, and their numbers of covariates."""
    names, ms = [], []
    for d in models:
        for n in ("1", "2"):
            if d["name" + n] not in names:
                names.append(d["name" + n])
                ms.append(d["m" + n])
    return names, ms


def blocks(models):
    """The documented order of data blocks: by covariate, then match-up series, then member of the pair.
    Each is (series, "1" or "2", covariate), all from 0."""
    top = max(max(d["m1"], d["m2"]) for d in models)
    return [(i, n, c) for c in range(top) for i, d in enumerate(models) for n in ("1", "2") if d["m" + n] > c]


class Named(object):
    """A stand-in for a sensor's model."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Named(%r)" % self.name

    def __eq__(self, other):
        return isinstance(other, Named) and other.name == self.name

    def __hash__(self):
        return hash(self.name)


def describe(mup, models, key=0):
    """Attaches sensor data, that tell the sensors apart, to an opened data set."""
    data = {}
    for k, n in enumerate(sensor_order(models)[0]):
        data[n] = {"sensor_model_parameter": [k + 0.25 * q for q in range((k + key) % 4)],
                   "sensor_model_constant": [-k - 0.25 * q for q in range((k + key + 1) % 3)], "sensor_model": Named("model " + n)}
        if (k + key) % 2:
            data[n]["adjustment_model"] = Named("adjustment " + n)
    mup.setSensorData(data)


SENSOR_DATA = ("a", "sensor_model_constant", "sensor_model", "adjustment_model")
SENSOR_INDEX = ("parameter_sensor", "sensor_model_constant_sensor")


def same_sensors(a, b, what):
    for name in SENSOR_DATA:
        x, y = getattr(a, name), getattr(b, name)
        assert (x is None) == (y is None), "%s: %s is %r" % (what, name, x)
        if x is not None:
            x, y = list(x), list(y)
            assert len(x) == len(y) and all(p is q or p == q for p, q in zip(x, y)), "%s: %s is %r, not %r" % (what, name, x, y)
    for name in SENSOR_INDEX:
        x, y = list(a.idx[name]), list(b.idx[name])
        assert x == y, "%s: index %s is %r, not %r" % (what, name, x, y)
