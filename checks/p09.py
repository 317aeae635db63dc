"""P09: the solver's matrix-free operators are those of the Jacobian of the harmonisation problem."""
import numpy as np

import harm
import vh
from vh import gauss, rng

C = vh.Check(
    "P09",
    rule="A case is a generated data set (1-4 series, reference sensors and others of up to 4 covariates of all error types), "
         "sensor models nonlinear in data and parameters, adjustment models, a preconditioner, a point and vectors. "
         "Non-trivial: a structured or systematic error, or sensors with different numbers of covariates.",
    assumptions=["A reference sensor has one measurand of random error, no parameters, and a model with no derivatives.",
                 "Tolerance 5e-5 of the magnitude of summed terms: the solver works in single precision."],
    setup=lambda w: w.use_eiv(cython=True),
)


def cases():
    return harm.cases()


def spd(key, n):
    q = gauss((key, "V"), (n, n)) * 0.4
    return q.dot(q.T) + np.eye(n) * 0.5


def near(got, want, mag, what):
    got = np.asarray(got, dtype=float)
    vh.equal(got.shape, want.shape, what + " shape")
    bad = ~(np.abs(got - want) <= 5e-5 * mag + 1e-6)
    assert not bad.any(), "%s: %s %r, expected %r" % (what, np.argwhere(bad)[0], got[bad][0], want[bad][0])


@C.prop("operators", cases, quick=250)
def operators(case, ctx):
    gn, _ = harm.modules()
    sc = harm.Scene(case)
    key = case["key"]
    hdata = gn.Transform2NormInd().run(sc.mup)
    V = spd(key, sc.n_a)
    S = np.linalg.cholesky(V)
    op = gn.GNAlgo(hdata, V)
    near(op.S, S, abs(S), "factor of the preconditioner")
    vh.equal(len(op.xyza), sc.n_var + sc.n_a, "number of unknowns")
    near(op.xyza, np.concatenate([hdata.values, sc.parameters]), abs(op.xyza), "first point")
    v0, k0 = np.asarray(hdata.values, dtype=float), np.asarray(hdata.ks, dtype=float)
    x0 = op.xyza.copy() + rng((key, "dx"), len(op.xyza), -2., 2.)
    x0 = x0.astype(np.float32).astype(float)
    op.xyza = x0.copy()
    v, a = x0[:sc.n_var], x0[sc.n_var:]

    ks, J = sc.evaluate(v, a)
    kmag, Jmag = sc.evaluate(v, a, size=True)

    f = op.calc_f(op.xyza, hdata)
    near(f, np.concatenate([v - v0, ks - k0]), np.concatenate([abs(v) + abs(v0), kmag + abs(k0)]), "residuals")

    P = np.eye(sc.n_var + sc.n_a)
    P[sc.n_var:, sc.n_var:] = S
    JP, JPmag = J.dot(P), Jmag.dot(abs(P))
    x = gauss((key, "x"), sc.n_var + sc.n_a)
    y = gauss((key, "y"), sc.n_var + sc.n_mu)
    near(op.calc_Px(x), P.dot(x), abs(P).dot(abs(x)), "P x")
    near(op.calc_Px(x, transpose=True), P.T.dot(x), abs(P.T).dot(abs(x)), "P' x")
    near(op.get_JPx(x), JP.dot(x), JPmag.dot(abs(x)), "J P x")
    near(op.get_JPTx(y), JP.T.dot(y), JPmag.T.dot(abs(y)), "(J P)' y")
    near(op.calc_Hx(x), JP.T.dot(JP.dot(x)), JPmag.T.dot(JPmag.dot(abs(x))), "P'J'J P x")

    # One entry of each at a time, which a sum could hide.
    for j in {int(q) for q in rng((key, "cols"), 3, 0, sc.n_var + sc.n_a)} | set(range(sc.n_var, sc.n_var + sc.n_a)):
        e = np.zeros(sc.n_var + sc.n_a)
        e[j] = 1.
        near(op.get_JPx(e), JP[:, j], JPmag[:, j], "column %d of J P" % j)
    for j in {int(q) for q in rng((key, "rows"), 3, sc.n_var, sc.n_var + sc.n_mu)}:
        e = np.zeros(sc.n_var + sc.n_mu)
        e[j] = 1.
        near(op.get_JPTx(e), JP[j], JPmag[j], "row %d of J P" % j)
    vh.close(op.xyza, x0, 0, 0, "the point that products are taken at")
    vh.close(hdata.values, v0, 0, 0, "the data")
    t = [q for d in sc.d for s in "12" for q in d["uncertainty_type" + s]]
    ctx.nontrivial(max(t) > 1 or len({m for m, r in zip(sc.ms, sc.ref) if not r}) > 1)
    ctx.label(*["type %d" % q for q in sorted(set(t))])
    ctx.label(*["different numbers of covariates"] * (len({m for m, r in zip(sc.ms, sc.ref) if not r}) > 1))


@C.prop("measurand of one sensor", cases, quick=100)
def one_sensor(case, ctx):
    """calc_R at any point, for each series and sensor."""
    import inspect

    gn, _ = harm.modules()
    if len(inspect.signature(gn.GNAlgo.calc_R).parameters) != 14:
        ctx.label("calc_R takes other arguments")
        return
    sc = harm.Scene(case)
    h = gn.Transform2NormInd().run(sc.mup)
    op = gn.GNAlgo(h)
    x0 = op.xyza + rng((case["key"], "dx"), len(op.xyza), -2., 2.)
    first = sc.first
    for i, d in enumerate(sc.d):
        for s in "12":
            k, rest = sc.inputs(i, s)
            n = sc.names[k]
            R, J = op.calc_R(x0, h.unc, h.w_matrices, h.u_matrices, h.idx, h._original_idx, h.sensor_model,
                             h.sensor_model_constant, h.getSensorAcrossTrackIndex(i + 1, n),
                             h.getSensorAlongTrackIndex(i + 1, n), h.getSensorTime(i + 1, n), k, i + 1)
            X = np.array([sc.A[i, s, c].dot(x0[:sc.n_var]) for c in range(sc.ms[k])]).T
            m = np.array([abs(sc.A[i, s, c]).dot(abs(x0[:sc.n_var])) for c in range(sc.ms[k])]).T
            par = x0[sc.n_var:][first[k]:first[k] + len(sc.a[k])]
            wR, wJ = sc.models[k](X, par, sc.c[k], *rest)
            if sc.ref[k]:
                near(R, wR, m[:, 0], "measurand of a reference sensor")
                assert J is None
                continue
            mR, mJ = sc.models[k].size()(m, abs(par), abs(sc.c[k]), *rest)
            near(R, wR, mR, "measurand")
            near(J, wJ, mJ, "derivatives of the measurand")
    ctx.nontrivial(len(sc.d) > 1)
