"""P23: the Fortran software gives each telemetry column the error covariance that the file states."""
import os

import numpy as np

import ftn
import vh

C = vh.Check(
    "P23",
    rule="A case is a job as in P22, whose columns have all types of uncertainty; W matrices have 0- or 1-based indices, in "
         "ascending or descending order, with gaps and empty rows. Non-trivial: a series with structured columns is subset, or "
         "columns of different types are selected in another order.",
    assumptions=["The program is compiled with gfortran's run-time checks.", "Files follow the match-up format."],
    setup=lambda w: w.build_driver(),
)
f4 = np.float32
FIELDS = (("1", "i", 0), ("2", "j", 1))


def single(v):
    return np.asarray(v).astype(f4).astype(float)


def banded(out, k):
    """The dense form of W matrix k, and its number of columns."""
    m, n = out["w.mn.%d" % k]
    ia, ja, a = out["w.ia.%d" % k], out["w.ja.%d" % k], out["w.a.%d" % k]
    vh.equal([len(ia), len(ja)], [m + 1, m], "sizes of W matrix")
    vh.equal([ia[0], ia[-1]], [1, len(a) + 1], "ends of W matrix")
    w = np.zeros((m, n))
    for i in range(m):
        row = a[ia[i] - 1:ia[i + 1] - 1]
        if len(row):
            w[i, ja[i] - 1:ja[i] - 1 + len(row)] = row
    return w


def kind(t, common):
    return {0: 0, 1: 1, 2: 2 if common else 1, 3: 3, 4: 3}[int(t)]


def check_covariance(case, ms, out, present=None):
    net = case["net"]
    for k, d in enumerate(ms):
        if present is not None and k not in present:
            continue
        s, step, q = net["series"][k], case["steps"][k], ".%d" % (k + 1)
        d = ftn.seen(d, ftn.bare(d, case))
        rows = np.arange(0, d["M"], step)
        for n, v, side in FIELDS:
            m = d["m" + n]
            cols = ftn.columns(case, s["pair"][side], m)
            types = np.concatenate([d["uncertainty_type" + n], np.zeros(m, int)])
            kinds = [kind(types[c], case["common"]) for c in cols]
            vh.equal(out["m.u" + v + q].tolist(), kinds, "types of uncertainty")
            for l, (c, t) in enumerate(zip(cols, kinds)):
                ic, iv, iw = [int(out["m." + v + x + q][l]) for x in "cvw"]
                what = "column %d of sensor %s of series %d" % (l, n, k)
                vh.equal([ic > 0, iv > 0, iw > 0], [t in (1, 2), t == 3, t == 3], "matrices of " + what)
                if t == 1:
                    vh.equal(int(out["d.m.%d" % ic][0]), len(rows), "rows of D of " + what)
                    vh.close(out["d.a.%d" % ic], single(d["Ur" + n][rows, c]) ** 2, 2e-7, 1e-45, "D of " + what)
                elif t == 2:
                    vh.equal(int(out["b.m.%d" % ic][0]), len(rows), "rows of B of " + what)
                    vh.close(out["b.a.%d" % ic], single(d["Ur" + n][rows, c]) ** 2, 2e-7, 1e-45, "B of " + what)
                    vh.close(out["b.u.%d" % ic], single(d["Us" + n][rows, c]), 0, 0, "perturbation of " + what)
                elif t == 3:
                    u = d["u"][d["u_matrix_use" + n][c] - 1]
                    vh.equal(int(out["v.m.%d" % iv][0]), len(u), "rows of V of " + what)
                    vh.close(out["v.a.%d" % iv], single(u) ** 2, 2e-7, 0, "V of " + what)
                    w = ftn.dense(d["w"][d["w_matrix_use" + n][c] - 1], len(u))
                    got = banded(out, iw)
                    vh.equal(list(got.shape), [len(rows), len(u)], "shape of W of " + what)
                    vh.close(got, single(w[rows]), 0, 0, "W of " + what)


def nontrivial(case, ms):
    for k, d in enumerate(ms):
        if case["steps"][k] > 1 and d["M"] > 1 and d["w"]:
            return True
        for n, v, side in FIELDS:
            cols = ftn.columns(case, case["net"]["series"][k]["pair"][side], d["m" + n])
            t = np.concatenate([d["uncertainty_type" + n], np.zeros(d["m" + n], int)])
            if cols != list(range(len(cols))) and len(set(t[cols])) > 1:
                return True
    return False


@C.prop("covariance", lambda: ftn.jobs(), quick=500, thorough=12000)
def covariance(case, ctx):
    with vh.ws().tmp() as d:
        ms, cmds = ftn.prepare(case, d)
        ctx.nontrivial(nontrivial(case, ms))
        out, _, _ = ftn.run(d, cmds + ["read %d" % (k + 1) for k in range(len(ms))] + ["state"])
    check_covariance(case, ms, out)


@C.prop("structured", lambda: ftn.jobs(max_sensors=2, types=(3, 4, 3, 1), max_M=30), quick=200, thorough=4000)
def structured(case, ctx):
    """W matrices of many rows."""
    with vh.ws().tmp() as d:
        ms, cmds = ftn.prepare(case, d)
        ctx.nontrivial(nontrivial(case, ms))
        out, _, _ = ftn.run(d, cmds + ["read %d" % (k + 1) for k in range(len(ms))] + ["state"])
    check_covariance(case, ms, out)


@C.prop("removed", lambda: ftn.jobs(), quick=80, thorough=2000)
def removed(case, ctx):
    """What is removed to save memory goes, and what is read afterwards is as it would be otherwise."""
    with vh.ws().tmp() as d:
        ms, cmds = ftn.prepare(case, d)
        n = len(ms)
        ctx.nontrivial(n > 1 and any(x["w"] for x in ms))
        at = case["net"]["series"][0]["key"] % n
        out, _, _ = ftn.run(d, cmds + ["read %d" % (k + 1) for k in range(at)] + ["remove", "state"] +
                            ["read %d" % (k + 1) for k in range(at, n)] + ["state"])
    vh.equal(out["counts"][0].tolist(), [0, 0, 0, 0], "numbers of matrices after removal")
    out = {k: (v[-1] if isinstance(v, list) else v) for k, v in out.items()}
    check_covariance(case, ms, out, range(at, n))


def needed(case, ms):
    """How many B, D, V and W matrices a job makes."""
    res = [0, 0, 0, 0]
    for k, d in enumerate(ms):
        d = ftn.seen(d, ftn.bare(d, case))
        res[2] += len(d["u"])
        res[3] += len(d["w"])
        for n, v, side in FIELDS:
            types = np.concatenate([d["uncertainty_type" + n], np.zeros(d["m" + n], int)])
            for c in ftn.columns(case, case["net"]["series"][k]["pair"][side], d["m" + n]):
                t = kind(types[c], case["common"])
                if t in (1, 2):
                    res[0 if t == 2 else 1] += 1
    return res


@C.prop("capacity", lambda: ftn.jobs(), quick=100, thorough=2000)
def capacity(case, ctx):
    """A job that needs more matrices, sensors or match-up datasets than there is room for stops with an error, and no other."""
    with vh.ws().tmp() as d:
        ms, cmds = ftn.prepare(case, d)
        top, ns, n = max(needed(case, ms)), len(cmds), len(ms)
        ctx.nontrivial(top > 1)
        cmds += ["read %d" % (k + 1) for k in range(n)] + ["state"]
        out, _, _ = ftn.run(d, cmds, head="%d %d %d" % (top, ns, n))
        vh.equal(out["counts"].tolist(), needed(case, ms), "numbers of matrices")
        check_covariance(case, ms, out)
        for head in ["%d %d %d" % (top - 1, ns, n)] * (top > 0) + ["%d %d %d" % (top, ns, n - 1)]:
            out, text, rc = ftn.run(d, cmds, head=head, ok=False)
            vh.equal(rc != 0 and not out, True, "the program stopped with room for " + head)
            assert "Fortran runtime error" not in text, text[-800:]
        out, text, rc = ftn.run(d, cmds[:ns] + cmds[:1], head="%d %d %d" % (top, ns, n))
        vh.equal([int(x[0]) for x in out["sensor_index"]], list(range(1, ns + 1)) + [0], "sensor indices")


def invalid():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({"job": ftn.jobs(max_sensors=2, types=(3, 4)), "which": st.integers(0, 9), "by": st.sampled_from([-2, -1, 1, 3])})


@C.prop("invalid", invalid, quick=60, thorough=1000)
def invalid_format(case, ctx):
    """W matrices whose row pointers do not fit their numbers of elements make the program stop with an error."""
    from netCDF4 import Dataset

    job = dict(case["job"], bare=[])
    with vh.ws().tmp() as d:
        ms, cmds = ftn.prepare(job, d)
        with Dataset(os.path.join(d, "in", "0.nc"), "a") as ds:
            row = np.array(ds.variables["w_matrix_row"][:])
            k = case["which"] % len(row)
            # One of several matrices with the other base, or one with neither
            by = case["by"] if abs(case["by"]) > 1 or len(row) == 1 else (1 if job["base"] == 0 else -1)
            if len(row) == 1 and by == (1 if job["base"] == 0 else -1):
                by *= -1
            row[k] += by
            ds.variables["w_matrix_row"][:] = row
        ctx.nontrivial(len(row) > 1)
        out, text, rc = ftn.run(d, cmds + ["read 1", "state"], ok=False)
    vh.equal(rc != 0 and not out, True, "the program stopped")
    assert "Fortran runtime error" not in text, text[-800:]
