"""P07: measurands, adjusted measurands and K evaluated for a data set are those of its sensor models."""
import numpy as np

import mu
import vh
from p06 import load
from vh import rng

C = vh.Check(
    "P07",
    rule="A case is a generated network of match-ups whose sensors have generated models (a first one without parameters, "
         "others of every number of parameters and constants, that use track indices and times), and a selection of series. "
         "Non-trivial: at least two series, or a sensor model that uses indices or times.",
    assumptions=["Tolerance 2e-5 of the magnitude of the terms summed: measurands are single precision.",
                 "A selection names no series twice."],
    setup=lambda w: w.use_eiv(),
)


def larger_cases():
    return cases(mu.larger(max_sensors=7, types=(1, 2)))


def cases(nets=None):
    from hypothesis import strategies as st

    nets = nets or mu.networks(max_sensors=4, max_series=4, max_m=4, max_M=7, types=(1, 2))

    @st.composite
    def case(draw):
        net = draw(nets)
        spec = [{"np": draw(st.integers(0, 3)), "nc": draw(st.integers(0, 2)), "uses": draw(st.booleans()),
                 "adj": draw(st.sampled_from(["none", "scale", "square"])), "J": draw(st.booleans())}
                for _ in net["sensors"]]
        n = len(net["series"])
        sel = draw(st.one_of(st.just(0), st.integers(1, n), st.permutations(range(1, n + 1)).flatmap(
            lambda p: st.integers(1, n).map(lambda k: p[:k]))))
        return {"net": net, "spec": spec, "sel": sel, "key": draw(st.integers(0, 2 ** 20))}

    return case()


class Model(object):
    """R = x . q + p . (1, x0/100, ...) + c . (1, 2) + 0.01 across + 0.001 along + seconds of the minute; records its calls."""

    def __init__(self, m, spec, key, no_j):
        self.m, self.spec, self.no_j = m, spec, no_j
        self.q = rng((key, "q"), m, -1., 1.)
        self.calls = []

    def value(self, X, a, c, xt, at, t):
        X = np.asarray(X, dtype=float)
        f = np.ones((len(X), len(a)))
        for k in range(1, len(a)):
            f[:, k] = X[:, k % self.m] / 100.
        terms = [X[:, k] * self.q[k] for k in range(self.m)] + [f[:, k] * a[k] for k in range(len(a))]
        terms += [np.full(len(X), (k + 1) * v) for k, v in enumerate(c)]
        # Constants come in double precision.
        terms += [np.full(len(X), 1e7 * (float(v) - float(np.float32(v)))) for v in c]
        if self.spec["uses"]:
            for v, s in ((xt, 0.01), (at, 0.001)):
                if v is not None:
                    terms.append(s * np.nan_to_num(np.asarray(v, dtype=float)))
            terms.append(np.array([float(v.second) for v in t]))
        J = np.zeros((len(X), self.m + len(a)))
        J[:, :self.m] = self.q
        for k in range(1, len(a)):
            J[:, k % self.m] += a[k] / 100.
        J[:, self.m:] = f
        return sum(terms), sum(abs(v) for v in terms), J

    def __call__(self, X, a, c, xt, at, t):
        R, _, J = self.value(X, a, c, xt, at, t)
        return R, None if self.no_j else J


def adjust(kind):
    if kind == "scale":
        return lambda R: (2.5 * R - 3., np.full(len(R), 2.5))
    if kind == "square":
        return lambda R: (R + 1e-3 * R ** 2, 1 + 2e-3 * R)
    return lambda R: (R, np.ones(len(R)))


def near(got, want, mag, what):
    vh.equal(np.shape(got), np.shape(want), what + " shape")
    bad = ~(np.abs(got - want) <= 2e-5 * mag + 1e-7)
    assert not bad.any(), "%s: %r, expected %r" % (what, got[bad][0], want[bad][0])


@C.prop("larger", larger_cases, quick=60)
@C.prop("measurand and K", cases, quick=500)
def measurand(case, ctx):
    maths = vh.eiv(vh.MU + "matchupToolbox.utils.matchup_maths")
    net, key = case["net"], case["key"]
    d = [mu.expand(net, i) for i in range(len(net["series"]))]
    mup = load(d)
    names, ms = mu.sensor_order(d)
    spec = [case["spec"][[s["name"] for s in net["sensors"]].index(n)] for n in names]
    a = [rng((key, "a", n), s["np"], -30., 30.).astype(np.float32).astype(float) for n, s in zip(names, spec)]
    c = [rng((key, "c", n), s["nc"], -30., 30.) for n, s in zip(names, spec)]
    models = [Model(m, s, (key, n), s["np"] == 0 and not s["J"]) for n, m, s in zip(names, ms, spec)]
    mup.a = np.concatenate(a + [np.zeros(0)])
    mup.sensor_model_constant = np.concatenate(c + [np.zeros(0)])
    mup.idx["parameter_sensor"] = [n for n, v in zip(names, a) for _ in v]
    mup.idx["sensor_model_constant_sensor"] = [n for n, v in zip(names, c) for _ in v]
    mup.sensor_model = models
    mup.adjustment_model = [adjust(s["adj"]) for s in spec]
    values, ks = mup.values.copy(), mup.ks.copy()

    sel = case["sel"]
    series = list(range(1, len(d) + 1)) if sel == 0 else [sel] if isinstance(sel, int) else list(sel)
    want, mag, Js, adj, amag, ader = [], [], {}, [], [], []
    for n_mu in series:
        D = d[n_mu - 1]
        cols = [[], [], [], [], []]
        for i, n in enumerate(("1", "2")):
            k = names.index(D["name" + n])
            X = D["X" + n].astype(np.float32).astype(float)
            t = getattr(mup, "time" + n)[mup.idx["cNm"][n_mu - 1]:mup.idx["cNm"][n_mu]]
            # A variable that some file lacks is there for none of that file's match-ups only; see P01.
            xt = mup.getSensorAcrossTrackIndex(n_mu, names[k])
            at = mup.getSensorAlongTrackIndex(n_mu, names[k])
            R, m, J = models[k].value(X, a[k], c[k], xt, at, t)
            Js[n_mu, i] = None if models[k].no_j else J
            B, dB = mup.adjustment_model[k](R)
            for lst, v in zip(cols, (R, m, B, (abs(B) + m * abs(dB)), dB)):
                lst.append(v)
        for lst, v in zip((want, mag, adj, amag, ader), cols):
            lst.append(np.array(v).T)
    want, mag, adj, amag, ader = [np.concatenate(v) for v in (want, mag, adj, amag, ader)]

    near(maths.evaluate_measurand(mup, matchup_series=sel), want, mag, "measurand")
    near(maths.evaluate_adjusted_measurand(mup, matchup_series=sel), adj, amag, "adjusted measurand")
    near(maths.evaluate_K(mup, matchup_series=sel), adj[:, 1] - adj[:, 0], amag.sum(axis=1), "K")
    got, der = maths.evaluate_adjusted_measurand(mup, matchup_series=sel, return_derivatives=True)
    near(got, adj, amag, "adjusted measurand, with derivatives")
    near(der, ader, abs(ader) + 2e-3 * mag, "derivative of the adjustment")

    def derivatives(J, what):
        for n_mu in series:
            for i in (0, 1):
                g, w = J[n_mu - 1][i], Js[n_mu, i]
                assert (g is None) == (w is None), what
                if w is not None:
                    near(g, w, abs(w) + 1., what)

    got, J = maths.evaluate_measurand(mup, matchup_series=sel, return_derivatives=True)
    near(got, want, mag, "measurand, with derivatives")
    derivatives(J, "derivatives of the measurand")
    got, der, J = maths.evaluate_adjusted_measurand(mup, matchup_series=sel, return_derivatives=True,
                                                    return_measurand_derivatives=True)
    near(got, adj, amag, "adjusted measurand, with both derivatives")
    near(der, ader, abs(ader) + 2e-3 * mag, "derivative of the adjustment, of both")
    derivatives(J, "derivatives of the measurand, of both")

    n_a = len(mup.a)
    L = rng((key, "V"), (n_a, n_a), -1., 1.)
    V = L.dot(L.T)
    if n_a:
        got, u = maths.evaluate_measurand(mup, matchup_series=sel, parameter_covariance_matrix=V)
        near(got, want, mag, "measurand, with uncertainty")
        at = 0
        for n_mu in series:
            M = d[n_mu - 1]["M"]
            for i, n in enumerate(("1", "2")):
                k = names.index(d[n_mu - 1]["name" + n])
                J = Js[n_mu, i]
                loc = [q for q, s in enumerate(mup.idx["parameter_sensor"]) if s == names[k]]
                w = np.zeros(M)
                if J is not None:
                    Ja = J[:, ms[k]:]
                    w = np.sqrt(np.maximum(np.einsum("ij,jk,ik->i", Ja, V[np.ix_(loc, loc)], Ja), 0))
                near(u[at:at + M, i], w, abs(w) + 1e-2, "uncertainty of the measurand of " + names[k])
            at += M
    # With other parameters the same data set has other measurands.
    if n_a:
        mup.a = [np.zeros(n_a), mup.a + 1.][key % 2]
        K0 = maths.evaluate_K(mup, matchup_series=sel)
        a0 = [mup.a[[q for q, s in enumerate(mup.idx["parameter_sensor"]) if s == n]] for n in names]
        want, mag, at = [], [], 0
        for n_mu in series:
            D, pair = d[n_mu - 1], []
            for n in "12":
                k = names.index(D["name" + n])
                X = D["X" + n].astype(np.float32).astype(float)
                t = getattr(mup, "time" + n)[mup.idx["cNm"][n_mu - 1]:mup.idx["cNm"][n_mu]]
                R, m, _ = models[k].value(X, a0[k], c[k], mup.getSensorAcrossTrackIndex(n_mu, names[k]),
                                          mup.getSensorAlongTrackIndex(n_mu, names[k]), t)
                B, dB = mup.adjustment_model[k](R)
                pair.append((B, abs(B) + m * abs(dB)))
            want.append(pair[1][0] - pair[0][0])
            mag.append(pair[0][1] + pair[1][1])
        near(K0, np.concatenate(want), np.concatenate(mag), "K with other parameters")
    vh.close(mup.values, values, 0, 0, "values of the data set")
    vh.close(mup.ks, ks, 0, 0, "K of the data set")
    ctx.nontrivial(len(series) > 1 or any(s["uses"] for s in spec))
    ctx.label("all" if sel == 0 else "%d of %d series" % (len(series), len(d)),
              *(["selection out of order"] if series != sorted(series) else []))
