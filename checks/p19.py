"""P19: AVHRR match-up files are converted to valid files with the same data."""
import contextlib
import os

import numpy as np

import vh
from vh import gauss, rng, uni

C = vh.Check(
    "P19",
    rule="A case is an instrument, band and set of temperatures (a number or an array of 0-3 dimensions, with values without "
         "radiance), or a file of up to 18 match-ups of AVHRR with a reference sensor or another AVHRR: data, uncertainties, "
         "scanline uncertainties with gaps, a band, additional variables, a temperature limit. Non-trivial: arrays with and "
         "without values that have none; files from which match-ups are removed but not all.",
    assumptions=["At least one match-up remains.", "Scanline times are 0.5 s.", "Brightness temperatures are of one band, "
                 "which both instruments have."],
    setup=lambda w: w.use_tools(),
)
C1, C2 = 1.191062e-5, 1.4387863
# Central wave number, offset and slope of the bands at 3.7, 11 and 12 um.
COEFS = {
    'm02': ([2685.11, 926.605, 837.805], [1.99126, 0.448099, 0.382986], [0.996287, 0.998631, 0.998879]),
    'n19': ([2678.51, 928.179, 832.010], [1.90192, 0.406106, 0.391425], [0.999063, 0.998698, 0.998849]),
    'n18': ([2675.31, 928.680, 834.073], [2.10086, 0.348003, 0.408531], [1.00006, 0.998861, 0.998805]),
    'n17': ([2678.19, 927.486, 840.187], [1.93286, 0.431676, 0.370802], [0.999144, 0.998637, 0.998917]),
    'n16': ([2688.43, 919.600, 836.710], [1.85548, 0.693914, 0.440396], [0.995179, 0.998170, 0.998707]),
    'n15': ([2687.15, 926.258, 840.231], [1.40674, 0.451169, 0.365465], [0.996299, 0.998636, 0.998931]),
    'n14': ([2674.39, 930.521, 835.544], [2.39486, 0.621590, 0.419563], [1.00004, 0.998294, 0.998769]),
    'n12': ([2671.81, 921.925, 838.003], [2.42853, 0.560212, 0.398581], [1.00102, 0.998415, 0.998832]),
    'n11': ([2682.85, 928.047, 842.869], [1.68218, 0.393074, 0.406868], [0.997630, 0.998759, 0.998803]),
    'n10': ([2679.11, 910.515], [1.93677, 0.457244], [0.998787, 0.998768]),
    'n09': ([2685.84, 929.574, 846.292], [1.74231, 0.347473, 0.493176], [0.996351, 0.998839, 0.998698]),
    'n08': ([2671.12, 915.281], [2.31640, 0.497544], [1.00146, 0.998654]),
    'n07': ([2683.18, 927.508, 841.403], [1.73290, 0.405709, 0.392737], [0.997424, 0.998741, 0.998845]),
    'n06': ([2678.59, 913.461], [1.94528, 0.505261], [0.998976, 0.998636]),
    'tn': ([2672.50, 913.041], [2.11244, 0.531096], [1.00119, 0.998563]),
    'aatsr': ([2681.59, 923.695, 832.715], [1.77887, 0.454752, 0.498667], [0.998005, 0.998814, 0.998525]),
    'atsr1': ([2686.35, 918.255, 841.035], [2.13333, 0.532039, 0.432575], [0.995620, 0.998695, 0.998729]),
    'atsr2': ([2699.00, 917.236, 831.569], [2.04002, 0.597643, 0.467731], [0.990740, 0.998578, 0.998620]),
}
NAMES = {-12: 'aatsr', -11: 'atsr2', -10: 'atsr1', -1: 'm02', 19: 'n19', 18: 'n18', 17: 'n17', 16: 'n16', 15: 'n15', 14: 'n14',
         12: 'n12', 11: 'n11', 10: 'n10', 9: 'n09', 8: 'n08', 7: 'n07'}
BANDS = [37, 11, 12]


def radiance(name, band, T):
    v, a, b = [c[band] for c in COEFS[name]]
    return C1 * v ** 3 / np.expm1(C2 * v / (a + b * T))


def temperature_cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "name": st.sampled_from(sorted(COEFS)), "band": st.integers(0, 2), "key": st.integers(0, 2 ** 20),
        "shape": st.sampled_from([None, (1,), (4,), (9,), (0,), (2, 3), (3, 1), (2, 1, 3), (2, 2, 2)]),
        "bad": st.lists(st.tuples(st.integers(0, 8), st.sampled_from([np.nan, np.inf, -np.inf, 0., -1., -200.])), max_size=4),
        "type": st.sampled_from(["f8", "f8", "f8", "f4", "i4"]), "hot": st.sampled_from([False, False, True]),
        "cold": st.sampled_from([False, False, True])})


@C.prop("temperatures", temperature_cases, quick=800)
def temperatures(case, ctx):
    # Of several instruments at a time.
    others = [sorted(COEFS)[(case["key"] + k) % len(COEFS)] for k in (1, 5)]
    convs = [vh.tool("convert_bt_to_radiance").convertBT(n) for n in (others[0], case["name"], others[1])]
    conv = convs[1]
    for c, n in zip(convs[::2], others):
        vh.close(c.temp2rad(250., 2), radiance(n, 1, 250.), 1e-12, 0, "radiance of %s" % n)
    name, band = case["name"], case["band"]
    if band >= len(COEFS[name][0]):
        for f in (conv.temp2rad, conv.rad2temp):
            try:
                f(250., band + 1)
            except Exception:
                continue
            raise AssertionError("%s has no band %d, but was converted" % (name, band + 1))
        ctx.label("no band")
        return
    low = 45. if case["cold"] else 150.
    if case["shape"] is None:
        T = float(rng((case["key"], "T"), 1, low, 4000. if case["hot"] else 340.)[0])
        vh.close(conv.temp2rad(T, band + 1), radiance(name, band, T), 1e-12, 0, "radiance")
        vh.close(conv.rad2temp(radiance(name, band, T), band + 1), T, 1e-10, 0, "temperature")
        return
    n = int(np.prod(case["shape"]))
    T = rng((case["key"], "T"), n, low, 4000. if case["hot"] else 340.)
    R = radiance(name, band, T)
    if case["type"] == "i4":
        # Whole numbers, of either.
        given = np.floor(T).astype("i4"), np.ceil(R).astype("i4")
        for f, x, inverse, what in ((conv.temp2rad, given[0], False, "radiances"), (conv.rad2temp, given[1], True, "temperatures")):
            with vh.quiet():
                got = np.asarray(f(x.reshape(case["shape"]), band + 1))
            vh.equal(got.shape, case["shape"], "shape of " + what)
            if inverse:
                v, a, b = [c[band] for c in COEFS[name]]
                want = (C2 * v / np.log1p(C1 * v ** 3 / x) - a) / b
            else:
                want = radiance(name, band, x)
            vh.close(got.ravel(), want, 1e-10, 0, what + " of whole numbers")
        ctx.label("whole numbers")
        return
    tol = (2e-4, 2e-5) if case["type"] == "f4" else (1e-12, 1e-10)
    if case["type"] == "f4":
        T, R = T.astype("f4"), R.astype("f4")
    valid = np.ones(n, dtype=bool)
    for i, value in case["bad"]:
        if i < n:
            T[i] = R[i] = value
            valid[i] = False
    for f, x, want, rtol, what in ((conv.temp2rad, T, R, tol[0], "radiances"), (conv.rad2temp, R, T, tol[1], "temperatures")):
        x = x.reshape(case["shape"])
        keep = x.copy()
        with vh.quiet():
            got = f(x, band + 1)
        assert ((x == keep) | np.isnan(keep)).all(), what + ": argument changed"
        vh.equal(np.shape(got), case["shape"], "shape of " + what)
        got = np.asarray(got).ravel()
        assert np.isnan(got[~valid]).all(), "%s of values that have none: %s" % (what, got[~valid])
        vh.close(got[valid], want[valid], rtol, 0, what)
    ctx.label("%d dimensions" % len(case["shape"]))
    if valid.any() and not valid.all():
        ctx.nontrivial()


def file_cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "M": st.integers(1, 18), "key": st.integers(0, 2 ** 20), "band": st.integers(0, 2), "ref": st.booleans(),
        "s1": st.sampled_from(sorted(NAMES)), "s2": st.sampled_from(sorted(k for k in NAMES if k > -10)),
        "kernel": st.integers(1, 5), "gaps": st.sampled_from([0., 0.1, 0.3]), "order": st.booleans(),
        "refBT": st.sampled_from([True, True, False]), "limit": st.sampled_from([None] * 6 + [240., 260.]),
        "other": st.lists(st.sampled_from(["latitude", "longitude", "satza", "solza", "ref_latitude", "ref_longitude",
                                           "ref_satza", "ref_solza", "elsewhere"]), unique=True, max_size=9),
        "dirs": st.booleans(), "f4": st.booleans()})


def make(case):
    """The contents of a file."""
    k, M = case["key"], case["M"]
    d = {"ref": case["ref"] or case["s1"] <= -10}
    # Match-ups on scanlines of 0.5 s.
    lines = np.sort((rng((k, "lines"), M, 0, 3 * M)).astype(int))
    if not case["order"]:
        lines = lines[np.argsort(uni((k, "order"), M))]
    lines -= lines[0]
    d["lines2"] = lines
    d["lines1"] = lines + (rng((k, "shift"), M, 0, 2).astype(int) if case["order"] else 0)
    d["lines1"] -= d["lines1"][0]
    d["time1"], d["time2"] = 1e9 + 0.5 * d["lines1"], 1e9 + 60. + 0.5 * d["lines2"]
    low, n = min(d["lines1"].min(), d["lines2"].min()), case["kernel"]
    for s in "12":
        for c in ("Sp", "BB"):
            per_line = rng((k, s, c), 10 * M + 10, 0.1, 2.).astype("f4")
            u = np.array([per_line[i - low:i - low + n] for i in d["lines" + s]])
            d["gap" + s + c] = gap = uni((k, "gap", s, c), M) < case["gaps"] / (4. if M > 3 else 40.)
            u[gap, (uni((k, "which", s, c), M) * n).astype(int)[gap]] = np.nan
            d["u" + s + c] = u
    t = "f4" if case["f4"] else "f8"
    d["H"] = rng((k, "H"), (M, 10), 0.5, 900.).astype(t)
    d["Ur"] = rng((k, "Ur"), (M, 10), 0.1, 3.).astype(t)
    d["Us"] = rng((k, "Us"), (M, 10), 0.1, 3.).astype(t)
    d["Us"][:, [0, 1, 2, 5, 6, 7]] = 0.
    if d["ref"]:
        d["H"][:, 1:5] = np.nan
        d["Ur"][:, 1:5] = np.nan
        d["Us"][:, 0] = 1.
    d["K"], d["Kr"], d["Ks"] = [(gauss((k, q), M) if q == "K" else rng((k, q), M, 0.1, 1.)).astype("f4") for q in ("K", "Kr", "Ks")]
    d["BT"], d["refBT"] = [rng((k, q), M, 215., 300.).astype("f4") for q in ("BT", "refBT")]
    return d


def write(case, d, path):
    from netCDF4 import Dataset

    with Dataset(path, "w") as ds:
        M, n = case["M"], case["kernel"]
        for name, size in (("M", M), ("m", 10), ("pair", 1), ("lm_column", 3), ("kernel", n)):
            ds.createDimension(name, size)
        for name in ("H", "Ur", "Us"):
            ds.createVariable(name, d[name].dtype, ("M", "m"))[:] = d[name]
        for name in ("K", "Kr", "Ks"):
            ds.createVariable(name, "f4", ("M",))[:] = d[name]
        ds.createVariable("lm", "i4", ("pair", "lm_column"))[:] = [[case["s1"], case["s2"], M]]
        ds.createVariable("ref_time_matchup", "f8", ("M",))[:] = d["time1"]
        ds.createVariable("time_matchup", "f8", ("M",))[:] = d["time2"]
        for s, pre in (("1", "ref_"), ("2", "")):
            for c in ("Sp", "BB"):
                ds.createVariable(pre + "cal_%s_Ur" % c, "f4", ("M", "kernel"))[:] = d["u" + s + c]
        ds.createVariable("BT%d" % BANDS[case["band"]], "f4", ("M",))[:] = d["BT"]
        if case["refBT"]:
            ds.createVariable("ref_BT%d" % BANDS[case["band"]], "f4", ("M",))[:] = d["refBT"]
        for name in case["other"]:
            ds.createVariable(name, "f4", ("M",))[:] = rng((case["key"], name), M, -90., 90.)


def dense(lines, n):
    """W matrix of averages over n scanlines from each of lines."""
    used = sorted(set(int(c + j) for c in lines for j in range(n)))
    W = np.zeros((len(lines), len(used)))
    for i, c in enumerate(lines):
        for j in range(n):
            W[i, used.index(int(c + j))] = 1. / n
    return W, used


def per_scanline(lines, u, used):
    out = np.zeros(len(used))
    for c, row in zip(lines, u):
        for j, v in enumerate(row):
            q = used.index(int(c + j))
            out[q] = max(out[q], v)
    return out


@contextlib.contextmanager
def plain(tool):
    """The numbers of sensors as netCDF4 gave them when the tool was written, not masked arrays (see the finding "masked")."""
    names = getattr(tool, "get_new_name", None)
    if names:
        tool.get_new_name = lambda n: names(int(n))
    try:
        yield
    finally:
        if names:
            tool.get_new_name = names


ADDITIONAL = {"latitude": "lat2", "longitude": "lon2", "satza": "vza2", "solza": "sza2", "ref_latitude": "lat1",
              "ref_longitude": "lon1", "ref_satza": "vza1", "ref_solza": "sza1"}


@C.prop("masked", file_cases, quick=6, thorough=20)
def masked(case, ctx):
    """Files are converted with the netCDF4 there is, which gives masked arrays."""
    if case["s1"] == case["s2"]:
        return
    ctx.nontrivial()
    case = dict(case, limit=None, gaps=0., band=1)
    with vh.ws().tmp() as t:
        path = os.path.join(t, "m02_n19.nc")
        write(case, make(case), path)
        with ctx.finding("masked", TypeError), vh.quiet():
            try:
                vh.tool("AVHRR_to_updated_spec").main(path, os.path.join(t, "out"))
            except TypeError as e:
                if "hashable" not in str(e):
                    raise RuntimeError(e)
                raise


@C.prop("files", file_cases, quick=120)
def files(case, ctx):
    from netCDF4 import Dataset

    band, name1, name2 = case["band"], NAMES[case["s1"]], NAMES[case["s2"]]
    if case["s1"] == case["s2"] or band >= min(len(COEFS[name1][0]), len(COEFS[name2][0])):
        return
    d = make(case)
    keep = ~(d["gap1Sp"] | d["gap1BB"] | d["gap2Sp"] | d["gap2BB"])
    if case["limit"] is not None:
        keep &= d["BT"] >= np.float32(case["limit"])
    if not keep.any():
        return
    n = case["kernel"]
    with vh.ws().tmp() as t:
        path, out = os.path.join(t, "m02_n19.nc"), os.path.join(t, "out")
        write(case, d, path)
        before = open(path, "rb").read()
        numbers = (105, 106) if BANDS[band] == 37 else (101, 102)
        folders = ["AVHRR_REAL_%d_%s" % (q, e) for e in ("RSW_", "R_W_", "R___") for q in numbers]
        if case["dirs"]:
            # Of an earlier run, on other data.
            for folder in (folders[2], folders[5]):
                os.makedirs(os.path.join(out, folder))
                write(case, make(dict(case, key=case["key"] + 1)), os.path.join(out, folder, "m02_n19.nc"))
        args = (path, out) if case["limit"] is None else (path, out, case["limit"])
        tool = vh.tool("AVHRR_to_updated_spec")
        done = False
        with ctx.finding("limit", KeyError), vh.quiet(), plain(tool):
            try:
                tool.main(*args)
                done = True
            except KeyError as e:
                if case["limit"] is None or e.args != ("BT11",):
                    raise RuntimeError("the conversion fails: %r" % e)  # not the finding
                raise
        assert open(path, "rb").read() == before, "the file converted was changed"
        if not done:
            return
        if BANDS[band] == 37:
            with ctx.finding("folders37", AssertionError):
                assert not os.path.exists(os.path.join(out, "AVHRR_REAL_101_RSW_")), "match-ups at 3.7 um are in the folders of 11 um"
        if os.path.exists(os.path.join(out, "AVHRR_REAL_101_RSW_")) and BANDS[band] == 37:
            # The listed finding: the files are looked at where they are.
            written = ["AVHRR_REAL_%d_%s" % (q, e) for e in ("RSW_", "R_W_", "R___") for q in (101, 102)]
            stale = [f for f in (folders[2], folders[5]) if case["dirs"]]
            vh.equal(sorted(os.listdir(out)), sorted(written + stale), "folders written")
            folders = written
        else:
            vh.equal(sorted(os.listdir(out)), sorted(folders), "folders written")
        for folder in folders:
            vh.equal(os.listdir(os.path.join(out, folder)), ["m02_n19.nc"], "files in " + folder)
            p = os.path.join(out, folder, "m02_n19.nc")
            four = int(folder[11:14]) in (102, 106)
            errors = folder[15:]
            with vh.quiet():
                wrong = vh.tool("harmonisation_input_checker").main(p)
            assert not wrong, "%s does not pass the input checker" % folder
            with Dataset(p) as ds:
                got = {v: np.ma.filled(ds.variables[v][:], np.nan) if ds.variables[v].dtype.kind == "f" else
                       np.array(ds.variables[v][:]) for v in ds.variables}
                vh.equal((str(ds.sensor_1_name), str(ds.sensor_2_name)), (name1, name2), "sensors")
            m2 = 5 if four else 4
            m1 = 1 if d["ref"] else m2
            w = 0 if d["ref"] else 1
            types = np.array([3, 3, 1, 2, 2])
            Ur = np.array(d["Ur"][keep], dtype=float)
            Us = np.array(d["Us"][keep], dtype=float)
            matrices, scan = [], {}
            for s in ("12" if w else "2"):
                lines = d["lines" + s][keep]
                W, used = dense(lines, n)
                matrices.append(W)
                for c in ("Sp", "BB"):
                    scan[s + c] = per_scanline(lines, d["u%s%s" % (s, c)][keep].astype(float), used)
            if errors != "RSW_":
                types = np.array([3, 3, 1, 1, 1])
                Us[:] = 0.
            for s, o in (("1", 0), ("2", 5)):
                if s == "1" and not w:
                    continue
                if errors == "R___":
                    Ur[:, o] = matrices[int(s) - 2 + w].dot(scan[s + "Sp"])
                    Ur[:, o + 1] = matrices[int(s) - 2 + w].dot(scan[s + "BB"])
                else:
                    Ur[:, [o, o + 1]] = 0.
            if errors == "R___":
                types = np.ones(5, dtype=int)
            if not w:
                Us[:, 0] = 0.
            ids = {"X1": d["H"][keep, :m1], "X2": d["H"][keep, 5:5 + m2], "Ur1": Ur[:, :m1], "Ur2": Ur[:, 5:5 + m2],
                   "Us1": Us[:, :m1], "Us2": Us[:, 5:5 + m2], "K": d["K"][keep], "Kr": d["Kr"][keep], "Ks": d["Ks"][keep]}
            vars_ = list(ids)
            for v in ids:
                vh.equal(got[v].shape, ids[v].shape, "%s: shape of %s" % (folder, v))
                vh.close(got[v], ids[v], 2e-6, 0, "%s: %s" % (folder, v))
            vh.equal(list(got["uncertainty_type1"]), list(types[:m1]) if w else [1], folder + ": types of sensor 1")
            vh.equal(list(got["uncertainty_type2"]), list(types[:m2]), folder + ": types of sensor 2")
            for s in "12":
                vh.close(got["time" + s], d["time" + s][keep], 0, 0, "%s: time%s" % (folder, s))
            vars_ += ["uncertainty_type1", "uncertainty_type2", "time1", "time2"]
            if errors != "R___":
                col = lambda x: x[:m2]
                use1 = [1, 1, 0, 0, 0][:m1] if w else [0]
                vh.equal(list(got["w_matrix_use1"]), use1, "use of W matrices, sensor 1")
                vh.equal(list(got["w_matrix_use2"]), col([1 + w, 1 + w, 0, 0, 0]), "use of W matrices, sensor 2")
                vh.equal(list(got["u_matrix_use1"]), [1, 2, 0, 0, 0][:m1] if w else [0], "use of u matrices, sensor 1")
                vh.equal(list(got["u_matrix_use2"]), col([1 + 2 * w, 2 + 2 * w, 0, 0, 0]), "use of u matrices, sensor 2")
                vh.equal(len(got["w_matrix_nnz"]), len(matrices), "number of W matrices")
                vh.equal(len(got["u_matrix_row_count"]), 2 * len(matrices), "number of u matrices")
                first = 0
                for i, W in enumerate(matrices):
                    nnz = int(got["w_matrix_nnz"][i])
                    row = np.atleast_2d(got["w_matrix_row"])[i]
                    mat = np.zeros(W.shape)
                    for r in range(len(W)):
                        for e in range(row[r], row[r + 1]):
                            mat[r, got["w_matrix_col"][first + e]] += got["w_matrix_val"][first + e]
                    first += nnz
                    vh.equal(int(row[-1]), nnz, "elements of W matrix")
                    vh.close(mat, W, 1e-6, 0, "%s: W matrix %d" % (folder, i))
                want = np.concatenate([scan[s + c] for s in ("12" if w else "2") for c in ("Sp", "BB")])
                vh.close(got["u_matrix_val"], want, 1e-6, 0, folder + ": u matrices")
                vars_ += ["w_matrix_nnz", "w_matrix_row", "w_matrix_col", "w_matrix_val", "w_matrix_use1", "w_matrix_use2",
                          "u_matrix_row_count", "u_matrix_val", "u_matrix_use1", "u_matrix_use2"]
            extra = {"original_indices": np.nonzero(keep)[0]}
            for name in case["other"]:
                if name in ADDITIONAL:
                    extra[ADDITIONAL[name]] = rng((case["key"], name), case["M"], -90., 90.)[keep]
            if case["refBT"]:
                rad1, rad2 = radiance(name1, band, d["refBT"].astype(float)[keep]), radiance(name2, band, d["BT"].astype(float)[keep])
                with ctx.finding("nominal", AssertionError):
                    for v, rad in (("nominal_measurand1", rad1), ("nominal_measurand2", rad2)):
                        vh.close(got[v], rad, 1e-5, 0, "%s: %s" % (folder, v))
                if "nominal" in ctx.check.findings and np.array_equal(got["nominal_measurand2"], d["BT"][keep]):
                    # The listed finding: these are the brightness temperatures as they are.
                    rad1, rad2 = d["refBT"][keep], d["BT"][keep]
                extra["nominal_measurand1"], extra["nominal_measurand2"] = rad1, rad2
            else:
                extra["nominal_measurand2"] = d["BT"][keep]
            if not four:
                extra["To2"] = d["H"][keep, 9]
                if w:
                    extra["To1"] = d["H"][keep, 4]
            for v in extra:
                assert v in got, "%s: no %s" % (folder, v)
                vh.close(got[v], extra[v], 1e-5 if "nominal" in v else 2e-6, 0, "%s: %s" % (folder, v))
            vh.equal(sorted(got), sorted(vars_ + list(extra)), folder + ": variables")
    ctx.label("band %d, %s" % (BANDS[band], "reference" if d["ref"] else "pair"))
    ctx.nontrivial(not keep.all())
