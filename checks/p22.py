"""P22: the Fortran software reads the data of match-ups as the files have them."""
import os

import numpy as np

import ftn
import mu
import vh
from vh import uni

C = vh.Check(
    "P22",
    rule="A case is a job of 2-4 sensors with files of 1-9 match-ups, subsetting steps, column selections that reorder, repeat or "
         "take systematic uncertainties as columns, and files without some of the optional variables. Non-trivial: some series "
         "is subset and some sensor selects columns.",
    assumptions=["The program is compiled with gfortran's run-time checks.", "Files follow the match-up format."],
    setup=lambda w: w.build_driver(),
)
f4 = np.float32


def single(v):
    return np.asarray(v).astype(f4).astype(float)


def check_matchups(case, ms, out):
    net = case["net"]
    vh.equal(out["nmatchup"].tolist(), [len(ms), len(ms), 325], "number of match-up datasets")
    start = 0
    for k, d in enumerate(ms):
        s, step, q = net["series"][k], case["steps"][k], ".%d" % (k + 1)
        d = ftn.seen(d, ftn.bare(d, case))
        rows = np.arange(0, d["M"], step)
        vh.equal(out["m.name" + q], "pair %d" % k, "name")
        vh.equal(out["m.uuid" + q], ftn.UUID if case["uuid"] else "", "UUID")
        vh.equal(out["m.i" + q].tolist(), [s["pair"][0] + 1] * 2, "first sensor")
        vh.equal(out["m.j" + q].tolist(), [s["pair"][1] + 1] * 2, "other sensor")
        vh.equal(out["m.m" + q].tolist(), [len(rows)] * 2, "number of match-ups after subsetting")
        vh.equal(out["m.range" + q].tolist(), [start + 1, start + len(rows)], "positions among all match-ups")
        start += len(rows)
        shapes = []
        for n, v, side in (("1", "qi", 0), ("2", "qj", 1)):
            cols = ftn.columns(case, s["pair"][side], d["m" + n])
            x = d["X" + n]
            if not case["common"]:
                x = np.concatenate([x, d["Us" + n]], axis=1)
            shapes += [len(rows), len(cols)]
            want = single(x[rows][:, cols])
            vh.close(out["m." + v + q].reshape(want.shape, order="F"), want, 0, 0, "telemetry " + v)
        vh.equal(out["m.shapes" + q].tolist(), shapes, "shapes of telemetry")
        vh.equal(out["m.r" + q].tolist(), shapes[1::2], "numbers of columns")
        vh.close(out["m.hj" + q], single(d["K"][rows]), 0, 0, "adjustments")
        kr, ks = single(d["Kr"]), single(d["Ks"])
        vh.close(out["m.vhj" + q], single((kr ** 2 + ks ** 2)[rows]), 2e-7, 0, "variances of adjustments")
        vh.close(out["m.hi" + q], np.zeros(len(rows)), 0, 0, "adjustments of the first sensor")
        vh.close(out["m.vhi" + q], np.zeros(len(rows)), 0, 0, "their variances")
        vh.close(out["m.ti" + q], d["time1"][rows], 1e-15, 0, "times of the first sensor")
        vh.close(out["m.tj" + q], d["time2"][rows], 1e-15, 0, "times of the other sensor")
        for v, name in (("pi", "across_track_index1"), ("pj", "across_track_index2")):
            vh.equal(out["m." + v + q].tolist(), (d[name][rows] if name in d else np.zeros(len(rows), int)).tolist(), name)


@C.prop("data", lambda: ftn.jobs(), quick=500, thorough=12000)
def data(case, ctx):
    ctx.nontrivial(max(case["steps"]) > 1 and any(case["sel"]))
    with vh.ws().tmp() as d:
        ms, cmds = ftn.prepare(case, d)
        out, text, _ = ftn.run(d, cmds + ["read %d" % (k + 1) for k in range(len(ms))] + ["state"])
        check_matchups(case, ms, out)


@C.prop("order", lambda: ftn.jobs(), quick=80, thorough=1600)
def order(case, ctx):
    """A dataset is read in the same way whatever was read before, and after the modules are initialized again."""
    ctx.nontrivial(len(case["steps"]) > 1)
    with vh.ws().tmp() as d:
        ms, cmds = ftn.prepare(case, d)
        n = len(ms)
        out, _, _ = ftn.run(d, cmds + ["read %d" % (k + 1) for k in range(n)] + ["state"])
        back, _, _ = ftn.run(d, cmds + ["read 1", "initialize 6500 25 325"] + cmds + ["read %d" % (k + 1) for k in reversed(range(n))] +
                             ["state"])
        for k in range(n):
            for name in sorted(out):
                if name.startswith("m.") and name.endswith(".%d" % (k + 1)) and name[2:4] not in ("ic", "jc", "iv", "jv", "iw", "jw", "ra"):
                    a, b = out[name], back[name[:name.rindex(".")] + ".%d" % (n - k)]
                    vh.equal(np.asarray(b).tolist(), np.asarray(a).tolist(), name)



# Variables, whether a value of each kind has to be refused in them
BAD = {"X1": "niH", "X2": "niH", "Ur1": "niH", "Ur2": "niH", "Us1": "niH", "Us2": "niH", "K": "niH", "Kr": "niHz", "Ks": "niH",
       "time1": "ni", "time2": "ni", "w_matrix_val": "niHz-", "u_matrix_val": "niHz"}
KINDS = {"n": np.nan, "i": np.inf, "H": 3e20, "z": 0., "-": -0.25}


def faulty():
    from hypothesis import strategies as st

    pairs = [(v, k) for v in sorted(BAD) for k in BAD[v]]
    return st.fixed_dictionaries({"job": ftn.jobs(max_sensors=3), "bad": st.sampled_from(pairs), "at": st.integers(0, 999),
                                  "neg": st.booleans(), "file": st.integers(0, 9)})


@C.prop("faulty", faulty, quick=400, thorough=10000)
def refused(case, ctx):
    """A value that is no valid datum makes the program stop with an error, wherever it is."""
    from netCDF4 import Dataset

    job = dict(case["job"], bare=[])
    with vh.ws().tmp() as d:
        ms, cmds = ftn.prepare(job, d)
        k = case["file"] % len(ms)
        name, kind = case["bad"]
        value = KINDS[kind] * (-1 if case["neg"] and kind in "iH" else 1)
        with Dataset(os.path.join(d, "in", "%d.nc" % k), "a") as ds:
            if name not in ds.variables:
                ctx.nontrivial(False)
                return
            v = ds.variables[name]
            a = np.array(v[:])
            a.flat[case["at"] % a.size] = value
            v[:] = a
        ctx.nontrivial(True)
        ctx.label(name + " " + kind)
        out, text, rc = ftn.run(d, cmds + ["read %d" % (i + 1) for i in range(len(ms))] + ["state"], ok=False)
        vh.equal(rc != 0 and not out, True, "the program stopped at %s = %s in %s" % (name, value, k))
        assert "Fortran runtime error" not in text, text[-800:]


@C.prop("large", lambda: ftn.jobs(max_sensors=2), quick=20, thorough=300)
def large(case, ctx):
    """Values up to the largest ones allowed are read."""
    from netCDF4 import Dataset

    with vh.ws().tmp() as d:
        ms, cmds = ftn.prepare(dict(case, bare=[]), d)
        big = f4(1.8e19)
        with Dataset(os.path.join(d, "in", "0.nc"), "a") as ds:
            ds.variables["X1"][:] = np.where(uni((1, "b"), ms[0]["X1"].size).reshape(ms[0]["X1"].shape) < 0.5, big, -big)
            ds.variables["Ur2"][:] = big
        out, _, _ = ftn.run(d, cmds + ["read 1", "state"])
        m1 = case["net"]["sensors"][case["net"]["series"][0]["pair"][0]]["m"]
        cols = ftn.columns(case, case["net"]["series"][0]["pair"][0], m1)
        ctx.nontrivial(any(c < m1 for c in cols))
        q = out["m.qi.1"].reshape((-1, len(cols)), order="F")
        for i, c in enumerate(cols):
            if c < m1:
                vh.close(np.abs(q[:, i]), np.full(len(q), float(big)), 0, 0, "large telemetry")


def wrong():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({"job": ftn.jobs(max_sensors=3), "kind": st.sampled_from(
        ["columns", "no variable", "no file", "twice", "sensor", "rows", "no dimension"]), "k": st.integers(0, 99)})


@C.prop("unusable", wrong, quick=120, thorough=2000)
def unusable(case, ctx):
    """Files, sensors and pairs that do not fit make the program stop with an error."""
    from netCDF4 import Dataset

    job, kind = dict(case["job"], bare=[]), case["kind"]
    with vh.ws().tmp() as d:
        ms, cmds = ftn.prepare(job, d)
        ctx.nontrivial(True)
        ctx.label(kind)
        path = os.path.join(d, "in", "0.nc")
        reads = ["read %d" % (i + 1) for i in range(len(ms))]
        pair = job["net"]["series"][0]["pair"]
        if kind == "columns":
            s = pair[case["k"] % 2]
            m = job["net"]["sensors"][s]["m"] * (1 if job["common"] else 2)
            cmds[s] = "sensor %d 7 2 %d 0" % (s + 1, m + 1 + case["k"] % 3)
        elif kind == "no variable":
            names = ["X1", "X2", "time1", "time2"]
            mu.write(ms[0], path, drop=[names[case["k"] % 4]])
        elif kind == "no file":
            os.remove(path)
        elif kind == "twice":
            reads.insert(1 + case["k"] % len(reads), "read 1")
        elif kind == "sensor":
            cmds = cmds[:pair[1]]
        elif kind == "no dimension":
            m = ms[0]
            with Dataset(path, "w", format="NETCDF3_64BIT_OFFSET") as ds:
                ds.createDimension("M", m["M"])
                ds.createDimension("m1", m["m1"])
                for v in ("X1", "time1", "time2"):
                    ds.createVariable(v, "f8", ("M", "m1") if v == "X1" else ("M",))[:] = m[v]
        elif kind == "rows":
            # K along another dimension
            with Dataset(path, "w") as ds:
                m = ms[0]
                for n, v in (("M", m["M"]), ("m1", m["m1"]), ("m2", m["m2"]), ("M2", m["M"] + 1)):
                    ds.createDimension(n, v)
                for n in "12":
                    for v in ("X", "Ur", "Us"):
                        ds.createVariable(v + n, "f4", ("M", "m" + n))[:] = m[v + n]
                    ds.createVariable("time" + n, "f8", ("M",))[:] = m["time" + n]
                bad = ["K", "Kr", "Ks"][case["k"] % 3]
                for v in ("K", "Kr", "Ks"):
                    ds.createVariable(v, "f4", ("M2",) if v == bad else ("M",))[:] = 1.
        out, text, rc = ftn.run(d, cmds + reads + ["state"], ok=False)
        vh.equal(rc != 0 and not out, True, "the program stopped: " + kind)
        assert "Fortran runtime error" not in text and "driver:" not in text, text[-800:]
