"""P08: sensor models give the measurand of their equation and its derivatives."""
import os

import numpy as np

import vh
from vh import rng

C = vh.Check(
    "P08",
    rule="A case is a sensor of one of the 35 sets of sensor data, with generated state variables (1-12 match-ups), parameters, "
         "and where used track indices. Non-trivial: the sensor is not a reference, and its parameters are not zero.",
    assumptions=["The equations are those of the project's documents, as written down in this check.",
                 "Derivatives of the equation are found by complex-step differentiation, exact to rounding.",
                 "The derivatives of the MW model are a listed finding: they are held to the derivative or, column by "
                 "column, to what is recorded here of the present code."],
    setup=lambda w: w.use_eiv(),
)

H, LIGHT, KB, TCMB = 6.626070040e-34, 299792458, 1.38064852e-23, 2.72548
SETS = (["AVHRR_%s_%d%s" % (c, n, r) for c, ns in (("11um", (3, 4)), ("12um", (3, 4)), ("37um", (2, 3))) for n in ns
         for r in ("", "_rescaled")] + ["AVHRR_sim_3", "AVHRR_sim_4", "test_sim", "MW____Ch03_3"]
        + ["HIRS__Ch%02d_3" % c for c in range(1, 20)])
AVHRR = "m02 n19 n18 n17 n16 n15 n14 n12 n11 n10 n09 n08 n07".split()
HIRS = "ma mb n19 n18 n17 n16 n15 n14 n12 n11 n10 n09 n08 n07 n06 tn".split()

NAMES = {"A": ["C_S", "C_ICT", "C_E", "L_ICT", "T_o"], "t": ["C_S", "C_ICT", "C_E", "L_ICT", "T_o"],
         "H": ["C_S", "C_ICT", "C_E", "T_ICT", "R_self"],
         "M": ["C_S", "C_IWCT", "T_IWCT1", "T_IWCT2", "T_IWCT3", "T_IWCT4", "T_IWCT5", "C_E", "T_LO"]}


def sensors(name):
    """Reference sensors and others of a set of sensor data."""
    if name == "test_sim":
        return ["0"], ["1", "2", "3"]
    if name.startswith("AVHRR_sim"):
        return AVHRR[:1], AVHRR[1:]
    if name.startswith("AVHRR"):
        return ["aatsr", "atsr2", "atsr1"], AVHRR
    if name.startswith("HIRS"):
        return ["iasi"], HIRS
    return ["18"], ["A", "B", "19", "17", "16", "15"]


def planck(v, T):
    return 2.0 * H * v ** 3 / LIGHT ** 2 / (np.exp(v * H / (KB * T)) - 1)


def avhrr(name):
    """(number of variables, of parameters, equation)"""
    scaled = name.endswith("_rescaled")
    n = 3 if name == "test_sim" else int(name.split("_")[2])
    quad = "37um" not in name
    with_t = n == (4 if quad else 3)

    def R(x, a, c, at):
        s = [1., 1e-3 if scaled else 1.]
        y = a[0] + (0.98514 + a[1] * s[1]) * x[3] * (x[0] - x[2]) / (x[0] - x[1])
        k = 2
        if quad:
            y = y + a[2] * (1e-6 if scaled else 1.) * (x[1] - x[2]) * (x[0] - x[2])
            k = 3
        if with_t:
            y = y + a[k] * s[1] * (x[4] - (285. if scaled else 0.))
        return y

    return 5 if with_t else 4, n, R


def hirs(x, a, c, at):
    Rict = planck(c[0], c[1] + c[2] * x[3])
    return (a[0] + (0.98 + a[1]) * Rict * (x[2] - x[0]) / (x[1] - x[0]) + a[2] * (x[2] - x[1]) * (x[2] - x[0])) - x[4]


def mw_parts(x, a, c, at):
    w = c[-9:-4]
    v, p, q, dTw = c[-4:]
    T = sum(wi * xi for wi, xi in zip(w, x[2:7])) / sum(w)
    LI, LS, L0 = planck(v, p + q * (T + dTw)), planck(v, p + q * (TCMB + a[2])), planck(v, p + q * TCMB)
    g = np.array([c[i] for i in at])
    cosangs = np.cos(2 * np.pi * 1.111 * (at - 45.5) / 180.) - np.cos(2 * np.pi * 73.6 / 180.)
    return w, v, p, q, dTw, T, LI, LS, L0, g, cosangs, LIGHT ** 2 / (2. * v ** 2 * KB)


def mw(x, a, c, at):
    w, v, p, q, dTw, T, LI, LS, L0, g, cosangs, rj = mw_parts(x, a, c, at)
    L = LI + (LI - LS) / (x[1] - x[0]) * (x[7] - x[1]) + a[0] * (LI - L0) ** 2 / (x[1] - x[0]) ** 2 * (x[7] - x[1]) * (x[7] - x[0])
    L = L + 0.5 * a[1] * cosangs * (LI - L)
    return rj / g * (L - (1. - g) * L0)


def mw_recorded(x, a, c, at):
    """The derivatives of the MW model as they are in the unchanged code (finding mw-derivatives)."""
    w, v, p, q, dTw, T, LI, LS, L0, g, cosangs, rj = mw_parts(x, a, c, at)
    S, I, E = x[0], x[1], x[7]
    D, B = I - S, LI - LS
    ex = np.exp(H * v / (KB * (p + q * (T + dTw))))
    J = np.zeros((len(S), 12))
    J[:, 0] = (E - I) * B / D ** 2 * (1 + a[0] * (2 * E - I - S) / D)
    J[:, 1] = (E - S) * B / D ** 2 * (1 + a[0] * B * (2 * E - I - S) / D)
    t = (1 + (E - I) / D + 2 * a[0] * (E - S) * (E - I) * B / D ** 2) * (
        LI * (2 * H * v * KB * q) / (KB * (p + q * (T + dTw))) ** 2 * ex / (ex - 1))
    for k in range(5):
        J[:, 2 + k] = t * w[k] / sum(w)
    J[:, 7] = (B / D + a[0] * B ** 2 / D ** 2) * (2 * E - I - S)
    J[:, 9] = (E - S) * (E - I) * B ** 2 / D ** 2
    L = LI + B / D * (E - I) + a[0] * (LI - L0) ** 2 / D ** 2 * (E - I) * (E - S)
    J[:, 10] = 0.5 * (LI - L) * cosangs
    J[:, 11] = -(E - I) / D * (1. + 2. * a[0] * (E - S) * B / D) * (1. - a[1] / (2. * g) * cosangs)
    return rj / g[:, None] * J


def cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({"set": st.one_of(st.sampled_from(SETS), st.sampled_from(SETS[:16])),
                                  "sensor": st.integers(0, 100), "M": st.integers(1, 12),
                                  "key": st.integers(0, 2 ** 30), "zero": st.sampled_from([False, False, False, True]),
                                  "single": st.booleans()})


def coefficients(channel):
    p = os.path.join(vh.REPO, "harmonisation_eiv/harmonisation/sensor_data/HIRS/coeffs/coef_ch%d.dat" % channel)
    with open(p, encoding="utf-8") as f:
        return {l.split()[0]: [float(v) for v in l.split()[1:4]] for l in f.readlines()[1:] if l.strip()}


def gap(key, M, lo, hi, least):
    """Numbers of either sign at least `least` from 0."""
    v = rng(key, M, lo, hi)
    return np.where(v < 0, v - least, v + least)


@C.prop("value and derivatives", cases, quick=5000)
def value(case, ctx):
    factory = vh.eiv("harmonisation.sensor_data.SensorDataFactory").SensorDataFactory()
    vh.equal(sorted(factory.get_names()), sorted(SETS), "names of the sets of sensor data")
    name, M, key = case["set"], case["M"], case["key"]
    data = factory.get_sensor_data(name)
    refs, others = sensors(name)
    vh.equal(sorted(data), sorted(refs + others), "sensors of " + name)
    sensor = (refs + others)[case["sensor"] % (len(refs) + len(others))]
    d = data[sensor]
    model = d["sensor_model"]
    f = np.float32 if case["single"] else np.float64
    at = np.floor(rng((key, "at"), M, 0, 90)).astype(int)
    ctx.label(name.split("_")[0] + (" reference" if sensor in refs else ""))
    if sensor in refs:
        X = rng((key, "X"), (M, 1), -50., 300.).astype(f)
        vh.equal((d["sensor_model_variables_num"], list(d["sensor_model_parameter"])), (1, []), "reference sensor")
        R, J = model(X, np.zeros(0), np.zeros(0), at, None, None)
        vh.close(R, X[:, 0], 0, 0, "measurand of the reference")
        assert J is None, "derivatives of the measurand of a reference"
        return

    r = lambda k, lo, hi: rng((key, k), M, lo, hi)
    s = lambda k, lo, hi: float(rng((key, k), 1, lo, hi)[0])
    if name.startswith("HIRS"):
        nv, na, eq = 5, 3, hirs
        Cs = r(0, -200., 200.)
        X = np.array([Cs, Cs + gap((key, 1), M, -900., 900., 60.), Cs + r(2, -900., 900.), r(3, 275., 295.), r(4, -2e-13, 2e-13)]).T
        a = np.array([s(5, -1e-13, 1e-13), s(6, -.05, .05), s(7, -1e-18, 1e-18)])
        c = np.array(d["sensor_model_constant"])
        vh.close(c, coefficients(int(name[8:10]))[sensor], 1e-12, 0, "constants of " + sensor)
    elif name.startswith("MW"):
        nv, na, eq = 9, 3, mw
        Cs = r(0, 9000., 15000.)
        X = np.array([Cs, Cs + r(1, 20000., 40000.)] + [r(k, 275., 295.) for k in range(2, 7)]
                     + [Cs + r(7, 2000., 42000.), r(8, 300., 340.)]).T
        a = np.array([s(9, -20., 20.), s(10, -.01, .01), s(11, -1., 1.)])
        c = np.array(d["sensor_model_constant"])
        # Gains, weights of the temperatures, frequency, band correction and difference of temperatures.
        vh.close(np.concatenate([c[:90], c[-9:]]), [1.] * 90 + ([1., 1., 1., 0., 1.] if sensor in ("15", "16", "17") else [2., 1., 1., 1., 1.])
                 + [1.8331e11, 0., 1., 0.], 1e-12, 0, "constants of " + sensor)
        c[:90] = rng((key, "g"), 90, 0.9, 1.)
        if s(12, 0., 1.) < 0.5:
            c[-9:-4] = rng((key, "w"), 5, 0.5, 2.)
            c[-3:] = rng((key, "p"), 3, 0.9, 1.1)
    else:
        nv, na, eq = avhrr(name)
        Cs = r(0, 300., 900.)
        X = np.array([Cs, Cs + gap((key, 1), M, -300., 300., 30.), Cs + r(2, -500., 500.), r(3, 5., 180.), r(4, 275., 300.)]).T[:, :nv]
        a = np.array([s(5, -50., 50.)] + [s(6 + k, -1., 1.) for k in range(na - 1)])
        if not name.endswith("_rescaled"):
            a[1:] *= 0.05
            if "37um" not in name:
                a[2] *= 1e-3
        else:
            a[1:] *= 50.
        c = np.zeros(0)
        vh.equal(list(d["sensor_model_constant"]), [], "constants")
    if case["zero"]:
        a = a * 0.
    X = X.astype(f)
    vh.equal(list(d["sensor_model_variable_names"]), NAMES[name[0]][:nv], "names of the variables")
    vh.equal((d["sensor_model_variables_num"], len(d["sensor_model_variable_names"]), len(d["sensor_model_variable_labels"]),
              len(d["sensor_model_parameter"])), (nv, nv, nv, na), "numbers of variables, names, labels and parameters")

    given = [v.copy() for v in (X, a, c, at)]
    R, J = model(X, a, c, at, None, None)
    for v, w, what in zip((X, a, c, at), given, ("data", "parameters", "constants", "track indices")):
        vh.close(v, w, 0, 0, "%s after evaluating %s %s" % (what, name, sensor))
    x = X.astype(float).T
    want = eq(list(x), list(a), c, at)
    # What rounding of each input does to the measurand bounds what rounding does within.
    h = 1e-40
    D = np.zeros((M, nv + na))
    for k in range(nv + na):
        xc, ac = [v.astype(complex) for v in x], [complex(v) for v in a]
        if k < nv:
            xc[k] = xc[k] + 1j * h
        else:
            ac[k - nv] += 1j * h
        D[:, k] = np.imag(eq(xc, ac, c, at)) / h
    size = abs(want) + (abs(D[:, :nv]) * abs(x.T)).sum(axis=1)
    tol = 2e-6 if case["single"] else 1e-10
    vh.equal(np.shape(R), (M,), "shape of the measurand")
    bad = ~(abs(R - want) <= tol * size)
    assert not bad.any(), "measurand of %s %s: %r, expected %r" % (name, sensor, np.asarray(R)[bad][0], want[bad][0])
    vh.equal(np.shape(J), (M, nv + na), "shape of the derivatives")
    ctx.nontrivial(not case["zero"])
    if case["single"]:
        return
    # Magnitude of the terms of a derivative: that of the measurand's terms over the smallest difference of counts.
    spread = np.minimum(abs(x[0] - x[1]), abs(x[1] - x[2]) + abs(x[0] - x[2]) + 1.)
    if name.startswith("MW"):
        rec = mw_recorded(list(x), list(a), c, at)
        exact = True
        for k in range(nv + na):
            t = 1e-5 * abs(D[:, k]).max() + 1e-30
            if (abs(J[:, k] - D[:, k]) <= t).all():
                continue
            exact = False
            vh.close(J[:, k], rec[:, k], 1e-5, 1e-5 * abs(rec[:, k]).max() + 1e-30,
                     "derivative %d of %s: neither the derivative nor what is recorded" % (k, name))
        if not exact:
            with ctx.finding("mw-derivatives"):
                for k in range(nv + na):
                    vh.close(J[:, k], D[:, k], 1e-5, 1e-5 * abs(D[:, k]).max() + 1e-30, "derivative %d of %s" % (k, name))
        return
    for k in range(nv + na):
        t = 1e-8 * abs(D[:, k]) + (1e-9 * size / spread if k < 3 else 1e-10 * abs(D[:, k]).max())
        bad = ~(abs(J[:, k] - D[:, k]) <= t)
        assert not bad.any(), "derivative %d of %s %s: %r, expected %r" % (
            k, name, sensor, J[bad, k][0], D[bad, k][0])
