"""P06: the transformation to independent, normalised variables and its reverse are the documented maps."""
from copy import deepcopy

import numpy as np

import mu
import vh
from vh import rng, uni

C = vh.Check(
    "P06",
    rule="A case is a generated data set of mixed uncertainty types, either with any W matrices and a drawn vector of "
         "transformed variables (drawn systematic errors among them), or with normalised rolling-average W matrices and the "
         "measured data. Non-trivial: a structured covariate, or a systematic error that is not zero.",
    assumptions=["Transforming and reversing gives the data back where it can: for normalised W rows that each add a new "
                 "column (rolling averages), as in the files of the project.",
                 "Tolerance 2e-5 of the magnitude of the terms summed: transformed variables are single precision."],
    setup=lambda w: w.use_eiv(cython=True),
)


def any_cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({"net": mu.networks(max_sensors=3, max_series=3, max_m=4),
                                  "v": st.integers(0, 2 ** 20)})


def larger_cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({"net": mu.larger(max_sensors=7, max_m=5), "v": st.integers(0, 2 ** 20)})


def rolling_cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({"net": mu.networks(max_sensors=3, max_series=3, max_m=3, max_M=12, types=(3, 4, 3, 1, 2)),
                                  "size": st.integers(1, 6)})


def load(models):
    import os

    with vh.ws().tmp() as folder:
        paths = []
        for i, d in enumerate(models):
            paths.append(os.path.join(folder, "mu_%02d.nc" % i))
            mu.write(d, paths[-1])
        return vh.eiv(vh.MU + "matchupIO.MatchUpReader").open_matchup(paths)


def transform():
    # The package leaves the import of this processor to its users.
    return vh.eiv(vh.MU + "matchupProcessing.transform2normind.Transform2NormInd").Transform2NormInd()


def systematic(models):
    """(sensor, covariate) -> number, from 0, of its systematic error."""
    out = {}
    for i, n, c in mu.blocks(models):
        d = models[i]
        if d["uncertainty_type" + n][c] in (2, 4):
            out.setdefault((d["name" + n], c), len(out))
    return out


def dense(w, n):
    a = np.zeros((len(w[0]) - 1, n))
    for r in range(len(a)):
        for p in range(w[0][r], w[0][r + 1]):
            a[r, w[1][p]] += w[2][p]
    return a


def model_reverse(models, v, k):
    """Original values, K and the magnitude of the terms, from transformed variables v and k."""
    sysn = systematic(models)
    sys_v = v[len(v) - len(sysn):]
    x, mag, at = [], [], 0
    for i, n, c in mu.blocks(models):
        d = models[i]
        t = int(d["uncertainty_type" + n][c])
        s = sys_v[sysn[d["name" + n], c]] * (d["Us" + n][:, c].astype(float) if t == 2 else float(d["Us" + n][0, c])) if t in (2, 4) else 0.
        if t in (1, 2):
            z = v[at:at + d["M"]] * d["Ur" + n][:, c].astype(float)
            at += d["M"]
            x.append(z + s)
            mag.append(abs(z) + abs(s))
        else:
            u = d["u"][d["u_matrix_use" + n][c] - 1]
            W = dense(d["w"][d["w_matrix_use" + n][c] - 1], len(u))
            z = v[at:at + len(u)] * u
            at += len(u)
            x.append(W.dot(z + s))
            mag.append(abs(W).dot(abs(z) + abs(s)))
    assert at + len(sysn) == len(v)
    uk = np.concatenate([np.hypot(d["Kr"].astype(float), d["Ks"].astype(float)) for d in models])
    return x, mag, k * uk


def near(got, want, mag, what):
    vh.equal(np.shape(got), np.shape(want), what + " shape")
    bad = ~(np.abs(got - want) <= 2e-5 * mag + 1e-9)
    assert not bad.any(), "%s: %r, expected %r" % (what, got[bad][0], want[bad][0])


def state(m):
    return [deepcopy(m.idx), m.values.copy(), m.ks.copy(), deepcopy(m._original_idx),
            [u.copy() for u in m.u_matrices], [w.toarray() for w in m.w_matrices]]


def same(m, before, what):
    vh.equal(m.idx, before[0], what + ": index")
    vh.close(m.values, before[1], 0, 0, what + ": values")
    vh.close(m.ks, before[2], 0, 0, what + ": ks")
    vh.equal(m._original_idx, before[3], what + ": original index")
    for a, b in zip(m.u_matrices, before[4]):
        vh.close(a, b, 0, 0, what + ": u")
    for a, b in zip(m.w_matrices, before[5]):
        vh.close(a.toarray(), b, 0, 0, what + ": W")


def layout(models, mup, ind):
    bl = mu.blocks(models)
    sysn = systematic(models)
    n = []
    for i, s, c in bl:
        d = models[i]
        n.append(d["M"] if d["uncertainty_type" + s][c] < 3 else len(d["u"][d["u_matrix_use" + s][c] - 1]))
    total = sum(n) + len(sysn)
    vh.equal([int(k) for k in ind.idx["N_var"]], n, "N_var of the transformed data")
    vh.equal([int(k) for k in ind.idx["idx"]], [0] + [int(k) for k in np.cumsum(n)[:-1]] + [total], "idx")
    vh.equal((len(ind.values), len(ind.ks)), (total, sum(d["M"] for d in models)), "sizes")
    for key in mup.idx:
        if key not in ("N_var", "idx"):
            vh.equal(list(ind.idx[key]), list(mup.idx[key]), key)
    return n, sysn


def rest(a, b, what):
    for name in mu.OPT + ["time1", "time2"]:
        x, y = getattr(a, name), getattr(b, name)
        assert (x is None) == (y is None), name
        if x is not None:
            assert np.shape(x) == np.shape(y) and all(p == q or p != p and q != q for p, q in zip(x, y)), "%s: %s" % (what, name)
    mu.same_sensors(a, b, what)
    for name in ("unc", "unck"):
        vh.equal(len(getattr(a, name)), len(getattr(b, name)), name)
        for p, q in zip(getattr(a, name), getattr(b, name)):
            assert p is q or repr(sorted(vars(p).items(), key=str)) == repr(sorted(vars(q).items(), key=str)), "%s: %s" % (what, name)


@C.prop("forward, larger", larger_cases, quick=25)
@C.prop("forward", any_cases, quick=150)
def forward(case, ctx):
    models = [mu.expand(case["net"], i) for i in range(len(case["net"]["series"]))]
    mup = load(models)
    mu.describe(mup, models, case["v"])
    before = state(mup)
    ind = transform().run(mup)
    same(mup, before, "data that was transformed")
    n, sysn = layout(models, mup, ind)
    at = 0
    for (i, s, c), k in zip(mu.blocks(models), n):
        d = models[i]
        if d["uncertainty_type" + s][c] < 3:
            vh.close(ind.values[at:at + k], d["X" + s][:, c].astype(float) / d["Ur" + s][:, c].astype(float), 2e-6, 0,
                     "normalised data of series %d X%s[:, %d]" % (i, s, c))
        at += k
    vh.close(ind.values[at:], np.zeros(len(sysn)), 0, 0, "systematic errors to start with")
    for i, d in enumerate(models):
        a, b = mup.idx["cNm"][i:i + 2]
        vh.close(ind.ks[a:b], d["K"].astype(float) / np.hypot(d["Kr"].astype(float), d["Ks"].astype(float)),
                 1e-6 if case["net"]["series"][i]["f4"] else 1e-12, 0,
                 "normalised K")
    rest(ind, mup, "transformed data")
    ctx.nontrivial(len(set(n)) > 1 or sysn)


@C.prop("reverse, larger", larger_cases, quick=40)
@C.prop("reverse", any_cases, quick=200)
def reverse(case, ctx):
    models = [mu.expand(case["net"], i) for i in range(len(case["net"]["series"]))]
    mup = load(models)
    mu.describe(mup, models, case["v"])
    ind = transform().run(mup)
    v = rng((case["v"], "v"), len(ind.values), -30., 30.).astype(np.float32)
    ind.values = v.copy()
    ind.ks = rng((case["v"], "k"), len(ind.ks), -30., 30.)
    before = state(ind)
    back = transform().reverse(ind)
    same(ind, before, "data that was reversed")
    x, mag, k = model_reverse(models, v.astype(float), ind.ks)
    near(back.values, np.concatenate(x), np.concatenate(mag), "reversed values")
    vh.close(back.ks, k, 1e-6, 0, "reversed K")
    for key in mup.idx:
        vh.equal([int(q) if isinstance(q, (int, float, np.number)) else q for q in back.idx[key]]
                 if isinstance(back.idx[key], (list, np.ndarray)) else back.idx[key],
                 [int(q) if isinstance(q, (int, float, np.number)) else q for q in mup.idx[key]]
                 if isinstance(mup.idx[key], (list, np.ndarray)) else mup.idx[key], "index " + key)
    rest(back, mup, "reversed data")
    structured = any(d["w"] for d in models)
    ctx.nontrivial(structured or systematic(models))
    ctx.label(*(["structured"] if structured else []))
    ctx.label(*(["systematic"] if systematic(models) else []))


@C.prop("per sensor, compiled, larger", larger_cases, quick=25)
@C.prop("per sensor, compiled", any_cases, quick=200)
def per_sensor(case, ctx):
    """The compiled routine of the solver that returns a sensor's state variables from transformed data."""
    vh.ws().use_eiv(cython=True)
    import importlib

    lib = importlib.import_module("harmonisation.core.matchup.matchupToolbox.harmonisation.harmonisationProcessing."
                                  "harmonisation_eiv.cython_lib_GN_algo")
    models = [mu.expand(case["net"], i) for i in range(len(case["net"]["series"]))]
    ind = transform().run(load(models))
    v = rng((case["v"], "v"), len(ind.values), -30., 30.).astype(np.float32)
    x, mag, _ = model_reverse(models, v.astype(float), np.zeros(len(ind.ks)))
    bl = mu.blocks(models)
    a = lambda k, idx: np.asarray(idx[k], dtype=np.int32)
    u32 = [np.asarray(u, dtype=np.float32) for u in ind.u_matrices]
    names, ms = mu.sensor_order(models)
    for i, d in enumerate(models):
        for s in ("1", "2"):
            j = names.index(d["name" + s])
            got = lib.unconvert_Xs(np.concatenate([v, np.zeros(3, np.float32)]), a("n_sensor", ind.idx), a("idx", ind.idx),
                                   a("idx", ind._original_idx), a("n_cov", ind.idx), a("n_mu", ind.idx),
                                   a("N_var", ind.idx), ind.unc, ind.w_matrices, u32, j, i + 1, ms[j])
            want = np.array([x[bl.index((i, s, c))] for c in range(ms[j])]).T
            m = np.array([mag[bl.index((i, s, c))] for c in range(ms[j])]).T
            near(np.asarray(got, dtype=float), want, m, "state variables of series %d, member %s" % (i, s))
    ctx.nontrivial(any(d["w"] for d in models) or systematic(models))


def roll(d, key, size):
    """Makes the W matrices of a series normalised rolling averages; returns whether a window ever repeats."""
    M, repeats = d["M"], False
    if not d["w"]:
        return False
    starts = []
    first = None
    for g in range(len(d["w"])):
        n = 1 + int(uni((key, g, "n"), 1)[0] * size)
        if first is None:
            # Half of the series have windows that move on by up to their width.
            top = 3 if uni((key, "steps"), 1)[0] < 0.5 else n + 2
            step = np.minimum(np.floor(uni((key, "step"), M) * (top - 0.1)).astype(int), n + 1)
            step[0] = 0
            first = np.cumsum(step)
        width = (1 + first[-1] * 0 + n)
        cols = [np.arange(f, f + width) for f in first]
        w = []
        for r in range(M):
            q = rng((key, g, int(first[r]), "q"), width, 0.3, 1.)
            w.append(q / q.sum())
        d["w"][g] = (np.arange(M + 1) * width, np.concatenate(cols), np.concatenate(w))
        starts.append(width)
    # All covariates of the series share the first W matrix (one width, so that any u vector fits).
    d["w"] = d["w"][:1]
    n_col = int(first[-1]) + starts[0]
    d["u"] = [rng((key, g, "u"), n_col, 0.1, 2.) for g in range(len(d["u"]))]
    for s in ("1", "2"):
        d["w_matrix_use" + s] = np.where(d["w_matrix_use" + s] > 0, 1, 0).astype(np.int32)
        for c in range(d["m" + s]):
            if d["w_matrix_use" + s][c]:
                for r in range(1, M):
                    if first[r] == first[r - 1]:
                        d["X" + s][r, c] = d["X" + s][r - 1, c]
                        repeats = True
    return repeats


@C.prop("there and back", rolling_cases, quick=250)
def there_and_back(case, ctx):
    models = [mu.expand(case["net"], i) for i in range(len(case["net"]["series"]))]
    repeats = [roll(d, (case["net"]["series"][i]["key"], i), case["size"]) for i, d in enumerate(models)]
    mup = load(models)
    ind = transform().run(mup)
    layout(models, mup, ind)
    back = transform().reverse(ind)
    _, mag, k = model_reverse(models, ind.values.astype(float), ind.ks)
    x = np.concatenate([models[i]["X" + s][:, c].astype(float) for i, s, c in mu.blocks(models)])
    near(back.values, x, np.concatenate(mag) + abs(x), "data transformed and reversed")
    vh.close(back.ks, np.concatenate([d["K"] for d in models]), 1e-6, 1e-6, "K transformed and reversed")
    ctx.nontrivial(any(d["w"] for d in models))
    ctx.label(*(["repeated window"] if any(repeats) else []))
