"""P27: plots of match-ups and of harmonisation results show the data they are plots of."""
import importlib
import io
import logging
import os
import sys
from contextlib import redirect_stdout
from datetime import datetime, timedelta

import numpy as np

import harm
import mu
import vh
from p15 import argv, restore
from vh import rng, uni

STUB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "stub")


def setup(w):
    w.use_eiv(cython=True)
    sys.path.insert(0, STUB)


C = vh.Check(
    "P27",
    rule="A case is a generated network of match-ups with sensor models, nominal measurands (also with gaps) and times over "
         "some months, a harmonisation result with other parameters in any order, and an order of calls of the plotting "
         "functions; or arrays or lists of arrays to plot. Non-trivial: at least two series.",
    assumptions=["matplotlib is not installed here: a stand-in (lib/stub) records what is drawn.",
                 "No two match-up series are of the same sensors in the same order: their files have the same names.",
                 "Values within 1e-5 of the edge of a bin may be in either."],
    setup=setup,
)

VIS = vh.MU + "matchupToolbox.harmonisation.harmonisationVis.HarmonisationVis"
MUV = vh.MU + "matchupVis.MatchUpVis"


def figures():
    return importlib.import_module("matplotlib").FIGURES


def drawn(f):
    """{path below folder: axes} of the figures that f(folder) draws."""
    with vh.ws().tmp() as folder:
        del figures()[:]
        with vh.quiet():
            f(folder)
        out = {}
        for fig in figures():
            name = os.path.relpath(fig["path"], folder)
            assert not name.startswith(".."), "figure outside the folder: " + fig["path"]
            vh.equal(len(fig["axes"]), 1, "axes of " + name)
            assert os.path.exists(fig["path"]), "figure " + name
            out[name] = fig["axes"][0]
    return out


def lines(ax, cut=False):
    """[(x, y, yerr, xerr, label)] of what is drawn with markers; all of it within the axes, unless cut is true."""
    got = [(a[0], a[1], k["yerr"], k["xerr"], k["label"]) for a, k in ax.of("errorbar")]
    for i, call in enumerate(("set_xlim", "set_ylim")):
        for (lim,), _ in [] if cut else ax.of(call):
            for g in got:
                v = g[i][~(np.isnan(dt(g[0])) | np.isnan(g[1]))]
                assert all(lim[0] <= t <= lim[1] for t in v), "values of %s beyond the limits %s" % (g[4], lim)
    return got


def text(ax, what):
    got = ax.of("set_" + what)
    vh.equal(len(got), 1, what)
    return got[0][0][0]


def dt(x):
    return np.array([(t - datetime(1970, 1, 1)).total_seconds() if isinstance(t, datetime) else t for t in x], dtype=float)


# ---------------------------------------------------------------------------------------------------------------------


def cases(refs=1):
    from hypothesis import strategies as st

    small = mu.networks(max_sensors=4, max_series=4, max_m=4, max_M=9, types=(1, 2), refs=refs)
    # Of many series, or many covariates.
    long = mu.networks(max_sensors=7, min_series=10, max_series=24, max_m=2, max_M=5, types=(1, 2), refs=refs)
    wide = mu.networks(max_sensors=3, max_series=3, max_m=12, max_M=7, types=(1, 2), refs=refs)
    return st.fixed_dictionaries({
        "net": st.one_of(*[small] * 8 + [long, wide]),
        "spec": harm.spec_strategy(7), "key": st.integers(0, 2 ** 20), "order": st.integers(0, 2 ** 20),
        "max": st.sampled_from([0, 0, 3, 7, 12]), "gaps": st.booleans(), "names": st.booleans(), "mus": st.booleans()})


class Vis(object):
    """A plotting object, and what its data are."""

    def __init__(self, case, uses=True):
        net, key = case["net"], case["key"]
        seen = set()
        for s in list(net["series"]):
            if tuple(s["pair"]) in seen:
                net = dict(net, series=[t for t in net["series"] if t is not s])
            seen.add(tuple(s["pair"]))
        case = dict(case, net=net, spec=[dict(s, uses=s["uses"] and uses) for s in case["spec"]])
        self.case = case

        def edit(d):
            for i, v in enumerate(d):
                M = v["M"]
                for n in "12":
                    x = rng((key, i, "nominal", n), M, 10., 90.)
                    if case["gaps"]:
                        x[uni((key, i, "gap", n), M) < 0.2] = -1e30
                        x[0] = 33.
                    v["nominal_measurand" + n] = x
                v["add"] = [a for a in v["add"] if a == "lat"] + ["nominal_measurand1", "nominal_measurand2"]
                t = 1e9 + np.cumsum(rng((key, i, "t"), M, 0., 20. * 86400 if key % 2 else 9.))
                v["time1"], v["time2"] = t, t + rng((key, i, "dt"), M, 3., 9e5)

        self.scene = sc = harm.Scene(case, refs=1, edit=edit)
        self.mup, self.d = sc.mup, sc.d
        # Names of variables, and parameters of a result in another order.
        if case["names"]:
            for n, m in zip(sc.names, sc.ms):
                sc.data[n]["sensor_model_variable_names"] = ["v%d_%s" % (c, n) for c in range(m)]
                sc.data[n]["sensor_model_variable_labels"] = ["l_%d %s" % (c, n) for c in range(m)]
        order = [int(k) for k in np.argsort(uni((key, "result"), len(sc.names)))]
        self.b = [rng((key, "b", n), len(a), -3., 3.) for n, a in zip(sc.names, sc.a)]
        result = type("Result", (), {})()
        result.parameter = np.concatenate([self.b[k] for k in order] + [np.zeros(0)])
        result.parameter_sensors = [sc.names[k] for k in order for _ in self.b[k]]
        self.result = result
        self.nominal = [np.concatenate([mu.unfilled(v["nominal_measurand" + n]) for v in self.d]) for n in "12"]
        self.K = np.concatenate([v["K"] for v in self.d]).astype(np.float32).astype(float)
        self.cut = np.concatenate([[0], np.cumsum([v["M"] for v in self.d])])
        self.time2 = dt(self.mup.time2)
        self.pairs = [(v["name1"], v["name2"]) for v in self.d]

    def adjusted(self, par):
        """Adjusted measurands (two arrays), and the size of their terms."""
        sc = self.scene
        L, S = [[], []], [[], []]
        for i, v in enumerate(self.d):
            for j, s in enumerate("12"):
                k, rest = sc.inputs(i, s)
                X = v["X" + s].astype(np.float32).astype(float)
                R = sc.models[k](X, par[k], sc.c[k], *rest)[0]
                size = abs(X[:, 0]) if sc.ref[k] else sc.models[k].size()(abs(X), abs(par[k]), abs(sc.c[k]), *rest)[0]
                L[j].append(sc.adj[k](R)[0])
                S[j].append(sc.adj[k].size(size)[0] + 1.)
        return [np.concatenate(x) for x in L], [np.concatenate(x) for x in S]

    def values(self):
        """name -> (values, magnitude)"""
        n1, n2 = self.nominal
        (h1, h2), (s1, s2) = self.adjusted(self.b)
        one = np.full(len(self.K), 200.)
        return {"L1_nom": (n1, one), "L2_nom": (n2, one), "L1_harm": (h1, s1), "L2_harm": (h2, s2),
                "kres_nom_nom": (n2 - n1 - self.K, one), "kres_harm_harm": (h2 - h1 - self.K, s1 + s2 + one),
                "kres_nom_harm": (n2 - h1 - self.K, s1 + one), "times": (self.time2, one)}


def near(got, want, mag, what):
    got = dt(got)
    vh.equal(got.shape, np.shape(want), "size of " + what)
    bad = ~((np.abs(got - want) <= 1e-5 * mag) | (np.isnan(got) & np.isnan(want)))
    assert not bad.any(), "%s: %r, expected %r" % (what, got[bad][0], np.asarray(want)[bad][0])


def months(t):
    return [datetime.fromtimestamp(0) if False else datetime(1970, 1, 1) + timedelta(seconds=float(x)) for x in t]


def monthly(values, times):
    """(averages, starts of the months) of the months with values, and those for which there is a NaN"""
    keys = [(t.year, t.month) for t in months(times)]
    out, at = [], []
    for k in sorted(set(keys)):
        v = values[[q == k for q in keys]]
        out.append(v.mean())
        at.append((datetime(k[0], k[1], 1) - datetime(1970, 1, 1)).total_seconds())
    return np.array(out), np.array(at)


@C.prop("data", cases, quick=220)
def data(case, ctx):
    mod = importlib.import_module(VIS)
    base = importlib.import_module(MUV)
    v = Vis(case)
    mup = v.mup
    h = mod.HarmonisationVis(mup, v.result)
    want = v.values()
    before = (mup.values.copy(), mup.ks.copy(), np.array(mup.a), list(mup.idx["parameter_sensor"]),
              v.result.parameter.copy(), list(v.result.parameter_sensors))
    names = ["L1_nom", "L2_nom", "L1_harm", "L2_harm", "kres_nom_nom", "kres_harm_harm", "kres_nom_harm", "times"]
    sampled = ["kres_nom_nom", "kres_harm_harm", "kres_nom_harm", "L1_nom", "L2_nom", "L1_harm", "L2_harm", "times"]
    meaned = ["kres_nom_nom", "kres_harm_harm", "kres_nom_harm"]
    todo = [("get_" + n, n, "all") for n in names] + [("get_%s_musamples" % n, n, "sample") for n in sampled] + \
        [("get_%s_monthlymean" % n, n, "month") for n in meaned]
    order = np.argsort(uni((case["order"], "calls"), len(todo)))
    old = getattr(base, "MAX_SCATTER_SAMPLES", None)
    limit = case["max"] if case["max"] < v.cut[-1] and old else 0
    base.MAX_SCATTER_SAMPLES = limit or old
    try:
        with vh.quiet():
            for q in list(order) + list(order[:4]):
                call, n, kind = todo[q]
                got = getattr(h, call)()
                val, mag = want[n]
                if kind == "all":
                    near(got, val, mag, call)
                elif kind == "sample":
                    ind = h.get_i_musamples()
                    vh.equal((len(got), len(ind)), (len(v.d), len(v.d)), "series of " + call)
                    for i, (g, k) in enumerate(zip(got, ind)):
                        a, b = v.cut[i:i + 2]
                        k = np.asarray(k)
                        if limit:
                            assert len(k) <= limit * (b - a) / float(v.cut[-1]) + 1e-9 and np.all((k >= 0) & (k < b - a)), \
                                "samples of series %d: %r of %d" % (i, k, b - a)
                            assert len(k) > limit * (b - a) / float(v.cut[-1]) - 1 - 1e-9, "too few samples"
                        else:
                            vh.equal(list(k), list(range(b - a)), "match-ups of series %d" % i)
                        near(g, val[a:b][k], mag[a:b][k], "%s of series %d" % (call, i))
                    vh.equal(h.get_musamples_total(), sum(len(k) for k in ind), "number of samples")
                else:
                    avg, at = got
                    vh.equal((len(avg), len(at)), (len(v.d), len(v.d)), "series of " + call)
                    for i in range(len(v.d)):
                        a, b = v.cut[i:i + 2]
                        w, t = monthly(val[a:b], v.time2[a:b])
                        keep = ~np.isnan(w)
                        near(at[i], t[keep], 0., "months of %s of series %d" % (call, i))
                        near(avg[i], w[keep], max(mag[a:b]), "%s of series %d" % (call, i))
            vh.equal(h.get_mu_total(), int(v.cut[-1]), "number of match-ups")
            vh.equal(h.get_mu_labels(), ["%s - %s" % p for p in v.pairs], "labels")
            vh.equal(h.get_mu_fname_suffix(), ["%s_%s" % p for p in v.pairs], "names of series")
    finally:
        base.MAX_SCATTER_SAMPLES = old
    after = (mup.values, mup.ks, np.array(mup.a), list(mup.idx["parameter_sensor"]), v.result.parameter,
             list(v.result.parameter_sensors))
    for x, y, what in zip(before, after, ("values", "K", "parameters", "sensors of parameters", "result", "sensors of result")):
        assert np.array_equal(x, y), what + " changed"
    ctx.nontrivial(len(v.d) > 1)
    ctx.label("sampled" if limit else "all", todo[order[0]][0])


def matches(got, want, what):
    """Lines drawn are those expected: (x, y, mag of x, mag of y, label)."""
    vh.equal(len(got), len(want), "lines of " + what)
    for g, (x, y, mx, my, label) in zip(got, want):
        keep = ~(np.isnan(x) | np.isnan(y))
        near(g[0], x[keep], np.broadcast_to(mx, x.shape)[keep], what + ": x of " + label)
        near(g[1], y[keep], np.broadcast_to(my, y.shape)[keep], what + ": y of " + label)
        vh.equal(g[4], label, "label of " + what)


SCATTERS = [("plot_kres_nom_nom_scatter", "k_res_nominal_scatter.pdf", "times", "kres_nom_nom", "Nominal K"),
            ("plot_kres_harm_harm_scatter", "k_res_harmonised_scatter.pdf", "times", "kres_harm_harm", "Harmonised K"),
            ("plot_kres_nom_harm_scatter", "k_res_nom_harm_scatter.pdf", "times", "kres_nom_harm", "nominal-harmonised"),
            ("plot_L1_nom_v_L2_nom_scatter", "L1_vs_L2_nominal_scatter.pdf", "L2_nom", "L1_nom", "Nominal Sensor 1"),
            ("plot_L1_harm_v_L2_harm_scatter", "L1_vs_L2_harmonised_scatter.pdf", "L2_harm", "L1_harm",
             "Harmonised/Reference Sensor 1")]
MEANS = [("plot_kres_nom_nom_scatter_monthlymean", "k_res_nominal_monthlymean.pdf", "kres_nom_nom"),
         ("plot_kres_harm_harm_scatter_monthlymean", "k_res_harmonised_monthlymean.pdf", "kres_harm_harm"),
         ("plot_kres_nom_harm_scatter_monthlymean", "k_res_nom_harm_monthlymean.pdf", "kres_nom_harm")]


def check_overview(figs, v, want):
    for _, name, x, y, ylabel in SCATTERS:
        if name in figs:
            ax = figs[name]
            w = []
            for i, p in enumerate(v.pairs):
                s = slice(*v.cut[i:i + 2])
                w.append((want[x][0][s], want[y][0][s], want[x][1][s], want[y][1][s], "%s - %s" % p))
            matches(lines(ax), w, name)
            assert ylabel in text(ax, "ylabel") and "(%d Samples)" % v.cut[-1] in text(ax, "ylabel"), text(ax, "ylabel")
            vh.equal([k["y"] for _, k in ax.of("axhline")], [0], "lines of " + name)
            assert ax.of("legend"), "legend of " + name
    for _, name, y in MEANS:
        if name in figs:
            w = []
            for i, p in enumerate(v.pairs):
                s = slice(*v.cut[i:i + 2])
                avg, at = monthly(want[y][0][s], v.time2[s])
                w.append((at, avg, 0., max(want[y][1][s]), "%s - %s" % p))
            matches(lines(figs[name]), w, name)
            vh.equal([k["y"] for _, k in figs[name].of("axhline")], [0], "lines of " + name)


@C.prop("overview", cases, quick=150)
def overview(case, ctx):
    mod = importlib.import_module(VIS)
    v = Vis(case)
    h = mod.HarmonisationVis(v.mup, v.result)
    calls = [s[0] for s in SCATTERS] + [s[0] for s in MEANS]
    order = np.argsort(uni((case["order"], "calls"), len(calls)))
    figs = drawn(lambda folder: [getattr(h, calls[q])(folder) for q in order])
    vh.equal(sorted(figs), sorted([s[1] for s in SCATTERS] + [s[1] for s in MEANS]), "figures")
    check_overview(figs, v, v.values())
    ctx.nontrivial(len(v.d) > 1)


# ---------------------------------------------------------------------------------------------------------------------
# Averages by bin


def binned(Y, X, lo, hi, n=50):
    """(centres, averages, standard deviations) of the bins with values; None if a value is at an edge."""
    Y, X = np.asarray(Y, float), np.asarray(X, float)
    Y, X = Y[~np.isnan(X)], X[~np.isnan(X)]
    if hi > lo:
        t = (X - lo) / (hi - lo) * n
        if ((abs(t - np.round(t)) < 1e-3) & (X != lo) & (X != hi)).any():
            return None
        k = np.clip(np.floor(t), 0, n - 1).astype(int)
    else:
        k = np.full(len(X), n - 1)
    out = []
    for b in sorted(set(k)):
        y = Y[k == b]
        if not np.isnan(y).any():
            out.append((lo + (b + 0.5) * (hi - lo) / n, y.mean(), y.std()))
    return np.array(out).reshape(-1, 3).T


def bars(got, want, mag, mx, label, what):
    vh.equal(len(got[0]), want.shape[1], "number of points of " + what)
    near(got[0], want[0], np.full(want.shape[1], mx), what + ": x")
    near(got[1], want[1], np.full(want.shape[1], mag), what + ": y")
    assert got[2] is not None, what + " has no standard deviations"
    near(got[2], want[2], np.full(want.shape[1], 100 * mag), what + ": standard deviation")
    if label:
        vh.equal(got[4], label, "label of " + what)


def check_binned(figs, fname, folder, Y, mag, series, get, top, name, label, nice, title):
    """Figures of Y by variable. get(cov, i): values or None; name(cov, i), label(cov, i)"""
    expected = set()
    for cov in top:
        have = [i for i in series if get(cov, i) is not None]
        if not have:
            continue
        everything = np.concatenate([get(cov, i) for i in nice if get(cov, i) is not None])
        if np.isnan(everything).all():
            lo, hi = np.nan, np.nan
        else:
            lo, hi = np.nanmin(everything), np.nanmax(everything)
        rows = []
        for i in have:
            X, y, p = get(cov, i), Y[i], pairs_of[i]
            f = folder + "%s.%s_%s_binned.%s_%s.pdf" % (fname, name(cov, i), p[1], p[0], p[1])
            if np.isnan(X).all():
                expected.update({f} & set(figs))
                continue
            expected.add(f)
            w = binned(y, X, np.nanmin(X), np.nanmax(X))
            assert f in figs, "no figure %s in %s" % (f, sorted(figs))
            got = lines(figs[f])
            vh.equal(len(got), 1, "lines of " + f)
            if w is not None:
                bars(got[0], w, mag, 1e3, None, f)
            assert p[1] in text(figs[f], "xlabel") and label(cov, i) in text(figs[f], "xlabel"), text(figs[f], "xlabel")
            vh.equal(text(figs[f], "ylabel"), "%s (%s - %s)" % ((title,) + p), "label of y")
            rows.append((binned(y, X, lo, hi), "%s - %s" % p))
        f = [folder + "%s.%s_sensor_2_binned.pdf" % (fname, name(cov, i)) for i in have]
        f = [x for x in f if x in figs]
        if not rows and not f:
            continue
        assert f, "no figure of all series by variable %s" % (cov,)
        expected.update(f)
        # Series without values may be lines without points, or not there.
        got = [g for g in lines(figs[f[0]]) if len(g[0])]
        rows = [r for r in rows if r[0] is None or r[0].size]
        vh.equal(len(got), len(rows), "lines of " + f[0])
        for g, (w, lab) in zip(got, rows):
            if w is not None:
                bars(g, w, mag, 1e3, lab, f[0])
        vh.equal(text(figs[f[0]], "ylabel"), title, "label of y")
    return expected


pairs_of = {}

BINNED = [("plot_kres_harm_harm_%s_binned_line", "kres_harm_harm", "k_res_harmonised", "Harmonised K Residual"),
          ("plot_kres_nom_harm_%s_binned_line", "kres_nom_harm", "k_res_nom_harm", "K Residual = K - (Nominal - Harmonised)")]


def check_lines(figs, v, want, which, kind, folder="", series=None):
    _, quantity, fname, title = BINNED[which]
    sc = v.scene
    pairs_of.clear()
    pairs_of.update(enumerate(v.pairs))
    val, mag = want[quantity]
    Y = [val[v.cut[i]:v.cut[i + 1]] for i in range(len(v.d))]
    every = list(range(len(v.d)))
    series = every if series is None else series
    if kind == "X":
        def get(cov, i):
            return v.d[i]["X2"][:, cov].astype(np.float32).astype(float) if cov < v.d[i]["m2"] else None

        def name(cov, i):
            return "v%d_%s" % (cov, v.pairs[i][1]) if v.case["names"] else "X%d" % (cov + 1)

        def label(cov, i):
            return "$l_%d %s$" % (cov, v.pairs[i][1]) if v.case["names"] else "$X%d$" % (cov + 1)

        top = range(max(sc.ms))
    else:
        def get(cov, i):
            return mu.unfilled(v.d[i].get(cov, np.full(v.d[i]["M"], np.nan)))

        def name(cov, i):
            return cov

        label = name
        top = v.mup.getAdditionalDataNames()
    return check_binned(figs, fname, folder, Y, max(mag), series, get, top, name, label, every, title)


@C.prop("by bin", cases, quick=90)
def by_bin(case, ctx):
    mod = importlib.import_module(VIS)
    v = Vis(case)
    h = mod.HarmonisationVis(v.mup, v.result)
    series = None
    if case["mus"]:
        pick = [int(i) for i in np.argsort(uni((case["key"], "mus"), len(v.d)))][:1 + case["order"] % len(v.d)]
        series = pick
    for which in (0, 1):
        for kind in ("X", "additional_variables"):
            f = getattr(h, BINNED[which][0] % kind)
            figs = drawn(lambda folder: f(folder, mus=None if series is None else [i + 1 for i in series]))
            expected = check_lines(figs, v, v.values(), which, kind, series=series)
            vh.equal(sorted(figs), sorted(expected), "figures")
    ctx.nontrivial(len(v.d) > 1)


# ---------------------------------------------------------------------------------------------------------------------


def check_compare(figs, v, b, V, ax_name="compare_calibration.%s.pdf"):
    sc = v.scene
    vh.equal(sorted(figs), sorted(ax_name % n for n in sc.names), "figures")
    for k, n in enumerate(sc.names):
        got = lines(figs[ax_name % n])
        vh.equal(len(got), 1, "lines")
        ok = []
        # From one of the series the sensor is in.
        for i, d in enumerate(v.d):
            for s in "12":
                if d["name" + s] != n:
                    continue
                X = d["X" + s].astype(np.float32).astype(float)
                X = np.array([np.linspace(c.min(), c.max(), 20) for c in X.T]).T
                rest = (None, None, None)
                model = sc.models[k]
                r1, J = model(X, sc.a[k], sc.c[k], *rest)
                r2, J = model(X, b[k], sc.c[k], *rest)
                size = abs(X[:, 0]) + 1 if sc.ref[k] else sum(model.size()(abs(X), abs(p), abs(sc.c[k]), *rest)[0] for p in (sc.a[k], b[k])) + 1
                u = np.zeros(20)
                if J is not None and len(b[k]):
                    loc = [q for q, x in enumerate(v.mup.idx["parameter_sensor"]) if x == n]
                    Ja = J[:, sc.ms[k]:]
                    u = np.sqrt(np.einsum("ij,jk,ik->i", Ja, V[np.ix_(loc, loc)], Ja))
                try:
                    near(got[0][0], r1, size, "measurand of " + n)
                    near(got[0][1], r1 - r2, size, "difference of the measurands of " + n)
                    assert got[0][2] is not None, "no uncertainties"
                    near(got[0][2], 2 * u, size + 20 * u, "uncertainty of " + n)
                    ok.append(True)
                except AssertionError as e:
                    ok.append(e)
        if True not in ok:
            raise ok[0]
        assert n in text(figs[ax_name % n], "title"), "title"


@C.prop("comparison", cases, quick=120)
def comparison(case, ctx):
    mod = importlib.import_module(VIS)
    v = Vis(case, uses=False)
    sc = v.scene
    n_a = len(v.mup.a)
    L = rng((case["key"], "V"), (n_a, n_a), -1., 1.)
    V = L.dot(L.T)
    par = np.array(v.mup.a, dtype=float)
    for k, n in enumerate(sc.names):
        par[[q for q, x in enumerate(v.mup.idx["parameter_sensor"]) if x == n]] = v.b[k]
    before = (v.mup.values.copy(), np.array(v.mup.a), par.copy(), V.copy())
    h = mod.HarmonisationVis(v.mup, v.result)
    figs = drawn(lambda folder: h.plot_compare_calibration(folder, par, V, verbose=bool(case["order"] % 2)))
    check_compare(figs, v, v.b, V)
    for x, y in zip(before, (v.mup.values, np.array(v.mup.a), par, V)):
        assert np.array_equal(x, y), "data changed"
    ctx.nontrivial(len(v.d) > 1)


# ---------------------------------------------------------------------------------------------------------------------
# The programs


def program_cases():
    from hypothesis import strategies as st

    return st.tuples(cases(), st.fixed_dictionaries({
        "way": st.sampled_from(["operator", "job", "options"]), "there": st.booleans(), "again": st.booleans(), "slash": st.booleans(),
        "fname": st.sampled_from(["harm_v1.nc", "harm_FO_3.1_a_b.nc"])})).map(lambda t: dict(t[0], **t[1]))


def read_all(folder):
    out = {}
    for d, _, names in os.walk(folder):
        for n in names:
            with open(os.path.join(d, n), "rb") as f:
                out[os.path.relpath(os.path.join(d, n), folder)] = f.read()
    return out


def run_program(case, v, V, name, run_operator):
    """Figures below the folder of plots of the program's run."""
    res = importlib.import_module(vh.MU + "matchupToolbox.harmonisation.harmonisationIO.HarmonisationResult")
    sim = importlib.import_module("harmonisation.sensor_data.test_sim.test_sim").TestSim
    with vh.ws().tmp() as t:
        data, out = os.path.join(t, "match ups"), os.path.join(t, "out put")
        os.mkdir(data)
        os.mkdir(out)
        for i, d in enumerate(v.d):
            mu.write(d, os.path.join(data, "mu_%02d.nc" % i))
        r = res.HarmonisationResult()
        r.parameter, r.parameter_sensors, r.parameter_covariance_matrix = v.result.parameter, list(v.result.parameter_sensors), V
        r.save(os.path.join(out, case["fname"]), save_residuals=False)
        if case["there"]:
            os.makedirs(os.path.join(out, "plots", "overview"))
        before = read_all(data), read_all(out)
        extra = "/" if case["slash"] else ""
        real = sim.get_sensor_data
        logger = logging.getLogger("harmonisation.tools.common")
        restore(logger)
        sim.get_sensor_data = lambda self: v.scene.data
        try:
            with vh.quiet(), redirect_stdout(io.StringIO()):
                for k in range(2 if case["again"] else 1):
                    del figures()[:]
                    if case["way"] == "operator":
                        run_operator(data + extra, v.scene.data, out + extra)
                    else:
                        if case["way"] == "job":
                            with open(os.path.join(t, "a job.cfg"), "w") as f:
                                f.write("[harmonisation]\ndataset_dir = %s\nsensor = test_sim\noutput_dir = %s\n" % (data + extra, out + extra))
                            args = ["-j", os.path.join(t, "a job.cfg")]
                        else:
                            args = ["-i", data + extra, "-s", "test_sim", "-o", out + extra]
                        sys.modules.pop("harmonisation.tools." + name, None)
                        with argv(args):
                            vh.equal(importlib.import_module("harmonisation.tools." + name).main(), 0, "status of " + name)
        finally:
            sim.get_sensor_data = real
            restore(logger)
        after = read_all(data), read_all(out)
        assert after[0] == before[0], "match-up files changed"
        assert {k: b for k, b in after[1].items() if not k.startswith("plots" + os.sep)} == before[1], "output files changed"
        figs = {}
        for fig in figures():
            figs[os.path.relpath(fig["path"], os.path.join(out, "plots"))] = fig["axes"][0]
        vh.equal(sorted(figs), sorted(os.path.relpath(k, "plots") for k in after[1] if k.startswith("plots" + os.sep)), "files of figures")
        return figs


@C.prop("program", program_cases, quick=45)
def program(case, ctx):
    """harm_plot, and its operator."""
    v = Vis(case)
    V = np.eye(len(v.result.parameter))

    def run_operator(data, sensors, out):
        op = importlib.import_module("harmonisation.tools.HarmonisationPlottingOp")
        op.HarmonisationPlottingOp(data, sensors, out, logging.getLogger("harmonisation.tools.common")).run()

    figs = run_program(case, v, V, "harm_plot", run_operator)
    want = v.values()
    top = {k[len("overview/"):]: ax for k, ax in figs.items() if k.startswith("overview/")}
    vh.equal(sorted(top), sorted([s[1] for s in SCATTERS] + [s[1] for s in MEANS]), "figures of the overview")
    check_overview(top, v, want)
    rest = set()
    for which, quantity in enumerate(("kres_harmonised", "kres_nom_harm")):
        for kind, sub in (("X", "sensor_state_variables"), ("additional_variables",) * 2):
            rest |= check_lines(figs, v, want, which, kind, "diagnostics/%s/%s/" % (quantity, sub))
    vh.equal(sorted(rest), sorted(k for k in figs if not k.startswith("overview/")), "figures of diagnostics")
    ctx.nontrivial(len(v.d) > 1)
    ctx.label(case["way"])


@C.prop("comparison program", program_cases, quick=60)
def comparison_program(case, ctx):
    """harm_comp_plot, and its operator: the result against the parameters of the sensor data."""
    v = Vis(case, uses=False)
    # The parameters of the result in the order of the match-ups' sensors, as results of the solver are.
    sensor = list(v.mup.idx["parameter_sensor"])
    v.result.parameter = np.array(v.mup.a, dtype=float)
    v.result.parameter_sensors = sensor
    for k, n in enumerate(v.scene.names):
        v.result.parameter[[q for q, x in enumerate(sensor) if x == n]] = v.b[k]
    L = rng((case["key"], "V"), (len(sensor),) * 2, -1., 1.)
    V = L.dot(L.T)

    def run_operator(data, sensors, out):
        op = importlib.import_module("harmonisation.tools.HarmonisationCompPlottingOp")
        op.HarmonisationComparisonPlottingOp(data, sensors, out).run(verbose=bool(case["order"] % 2))

    check_compare(run_program(case, v, V, "harm_comp_plot", run_operator), v, v.b, V)
    ctx.nontrivial(len(v.d) > 1)
    ctx.label(case["way"])


# ---------------------------------------------------------------------------------------------------------------------
# The plotting functions themselves


def plot_cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "n": st.lists(st.integers(1, 12), min_size=1, max_size=12), "lists": st.booleans(), "dates": st.booleans(),
        "gaps": st.sampled_from(["none", "x", "y", "both"]), "yerr": st.booleans(), "xerr": st.booleans(), "legend": st.booleans(),
        "lines": st.lists(st.sampled_from(["dash_ylines", "dash_xlines", "solid_ylines", "solid_xlines"]), unique=True),
        "lims": st.sampled_from(["none", "x", "y", "both"]), "txt": st.integers(0, 3), "where": st.sampled_from(["top_right", "outside", "other"]), "key": st.integers(0, 2 ** 20)})


@C.prop("scatter", plot_cases, quick=500)
def scatter(case, ctx):
    plots = importlib.import_module("harmonisation.core.utils.plots")
    key = case["key"]
    ns = case["n"] if case["lists"] else case["n"][:1]
    X, Y, EY, EX = [], [], [], []
    for i, n in enumerate(ns):
        x = rng((key, i, "x"), n, -5., 9.)
        y = rng((key, i, "y"), n, 1., 7.)
        # Neither may have gaps only.
        for v, k in ((x, "x"), (y, "y")):
            if case["gaps"] in (k, "both"):
                v[1:][uni((key, i, k, "gap"), n - 1) < 0.25] = np.nan
        if case["dates"]:
            x = np.array([datetime(2001, 2, 3) + timedelta(days=float(t)) for t in np.nan_to_num(x)] + [None], dtype=object)[:-1]
        X.append(x)
        Y.append(y)
        EY.append(rng((key, i, "ey"), n, 0.1, 2.))
        EX.append(rng((key, i, "ex"), n, 0.1, 2.))
    legend = ["series %d" % i for i in range(len(ns))] if case["legend"] else None
    kw = {k: list(rng((key, k), 1 + key % 3, -2., 2.)) for k in case["lines"]}
    if case["lims"] in ("x", "both"):
        kw["xlim"] = [-3., 3.]
    if case["lims"] in ("y", "both"):
        kw["ylim"] = [2., 3.]
    if case["txt"]:
        kw["txt"] = ["line %d " % i for i in range(case["txt"])]
    pick = (lambda v: v) if case["lists"] else (lambda v: v[0])
    args = [Y, X, EY, EX]
    copies = [[a.copy() for a in v] for v in args]

    def draw(folder):
        plots.plot_scatter(os.path.join(folder, "a b.png"), pick(Y), pick(X), xlbl="abscissa", ylbl="ordinate", title="a title",
                           yerr=pick(EY) if case["yerr"] else None, xerr=pick(EX) if case["xerr"] else None, legend=legend,
                           legend_loc=case["where"], **kw)

    figs = drawn(draw)
    vh.equal(list(figs), ["a b.png"], "figures")
    ax = figs["a b.png"]
    got = lines(ax, cut=True)
    vh.equal(len(got), len(ns), "lines")
    for i, g in enumerate(got):
        x, y = dt(X[i]), Y[i]
        keep = ~(np.isnan(x) | np.isnan(y))
        near(g[0], x[keep], 0. * x[keep], "x of line %d" % i)
        near(g[1], y[keep], 0. * y[keep], "y of line %d" % i)
        for e, has, w, what in ((g[2], case["yerr"], EY[i], "yerr"), (g[3], case["xerr"], EX[i], "xerr")):
            assert (e is not None) == has, what
            if has:
                near(e, w[keep], 0. * w[keep], "%s of line %d" % (what, i))
        if legend:
            vh.equal(g[4], legend[i], "label")
        else:
            assert str(g[4]).startswith("_"), "label of a line without a name: %r" % (g[4],)
    vh.equal((text(ax, "xlabel"), text(ax, "ylabel"), text(ax, "title")), ("abscissa", "ordinate", "a title"), "labels")
    for call, which, arg in (("axhline", "ylines", "y"), ("axvline", "xlines", "x")):
        vh.equal(sorted(k[arg] for _, k in ax.of(call)), sorted(v for k in kw if k.endswith(which) for v in kw[k]), which)
        vh.equal(sorted(k[arg] for _, k in ax.of(call) if k.get("linestyle", "-") in (":", "--")),
                 sorted(v for k in kw if k == "dash_" + which for v in kw[k]), "dashed " + which)
    for call, k in (("set_xlim", "xlim"), ("set_ylim", "ylim")):
        vh.equal([list(a[0]) for a, _ in ax.of(call)], [kw[k]] if k in kw else [], k)
    assert bool(ax.of("legend")) == bool(legend), "legend"
    vh.equal(len(ax.of("text")), int(bool(case["txt"])), "text")
    if case["txt"]:
        vh.equal([s.strip() for s in ax.of("text")[0][0][2].strip().split("\n")], [s.strip() for s in kw["txt"]], "text")
    for v, c in zip(args, copies):
        for p, q in zip(v, c):
            assert np.array_equal(dt(p), dt(q), equal_nan=True), "arguments changed"
    ctx.nontrivial(len(ns) > 1)
    ctx.label("lists" if case["lists"] else "array", "dates" if case["dates"] else "numbers")


def density_cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({"n": st.integers(5, 40), "dates": st.booleans(), "gaps": st.sampled_from(["none", "x", "y", "both"]),
                                  "bins": st.integers(3, 9), "txt": st.integers(0, 2), "key": st.integers(0, 2 ** 20),
                                  "lines": st.lists(st.sampled_from(["dash_ylines", "dash_xlines", "solid_ylines", "solid_xlines"]), unique=True),
                                  "span": st.sampled_from([20., 900., 20000.])})


def gaps(v, key):
    v[3:][uni((key, "gap"), len(v) - 3) < 0.2] = np.nan


def kde(x, y, xi, yi):
    """Gaussian density of the points with Scott's bandwidth."""
    P = np.array([x, y])
    n = P.shape[1]
    S = np.cov(P) * n ** (-2. / 6)
    inv, norm = np.linalg.inv(S), 1. / (2 * np.pi * np.sqrt(np.linalg.det(S)) * n)
    D = np.array([xi, yi])[:, :, None] - P[:, None, :]
    return norm * np.exp(-0.5 * np.einsum("ikl,ij,jkl->kl", D, inv, D)).sum(axis=1)


@C.prop("density", density_cases, quick=250)
def density(case, ctx):
    plots = importlib.import_module("harmonisation.core.utils.plots")
    key, n = case["key"], case["n"]
    x, y = rng((key, "x"), n, 0., case["span"]), rng((key, "y"), n, 1., 7.)
    if case["gaps"] in ("x", "both") and not case["dates"]:
        gaps(x, (key, "x"))
    if case["gaps"] in ("y", "both"):
        gaps(y, (key, "y"))
    sx = x
    if case["dates"]:
        epoch = datetime(1985, 3, 4)
        sx = np.array([epoch + timedelta(days=float(t)) for t in x] + [None], dtype=object)[:-1]
        x = dt(sx)
    keep = ~(np.isnan(x) | np.isnan(y))
    kw = {k: list(rng((key, k), 1 + key % 3, -2., 2.)) for k in case["lines"]}
    if case["txt"]:
        kw["txt"] = ["line %d " % i for i in range(case["txt"])]
    copies = [sx.copy(), y.copy()]

    def both(folder):
        plots.plot_density(os.path.join(folder, "d.png"), y, sx, case["bins"], "abscissa", "ordinate", "a title", **kw)
        plots.plot_2dhist(os.path.join(folder, "h.png"), y, sx, case["bins"], "abscissa", "ordinate", "a title", **kw)

    figs = drawn(both)
    vh.equal(sorted(figs), ["d.png", "h.png"], "figures")
    for name, ax in figs.items():
        vh.equal((text(ax, "xlabel"), text(ax, "ylabel"), text(ax, "title")), ("abscissa", "ordinate", "a title"), "labels")
        for call, which, arg in (("axhline", "ylines", "y"), ("axvline", "xlines", "x")):
            vh.equal(sorted(k[arg] for _, k in ax.of(call)), sorted(v for k in kw if k.endswith(which) for v in kw[k]),
                     which + " of " + name)
        vh.equal(len(ax.of("text")), int(bool(case["txt"])), "text")
        if case["dates"]:
            at = ax.of("set_xticks")[0][0][0]
            labels = ax.of("set_xticklabels")[0][0][0]
            vh.equal(len(at), len(labels), "labels of dates")
            for s, year in zip(at, labels):
                vh.equal(float(s), (datetime(int(year), 1, 1) - datetime(1970, 1, 1)).total_seconds(), "date of year %s" % year)
            years = sorted(t.year for t in (sx if name == "h.png" else sx[keep]))
            vh.equal([int(labels[0]), int(labels[-1])], [years[0], years[-1]], "first and last year of " + name)
            assert len(labels) <= 15 or years[-1] - years[0] < 15, "labels"
    got = figs["h.png"].of("hist2d")
    vh.equal(len(got), 1, "histograms")
    near(got[0][0][0], x[keep], 0. * x[keep], "x of the histogram")
    near(got[0][0][1], y[keep], 0. * y[keep], "y of the histogram")
    vh.equal(got[0][1]["bins"], case["bins"], "bins")
    ax = figs["d.png"]
    (xi, yi, zi), _ = ax.of("pcolormesh")[0]
    vh.equal((xi.shape, yi.shape, zi.shape), ((case["bins"],) * 2,) * 3, "grid")
    px, py = x[keep], y[keep]
    near(xi[:, 0], np.linspace(px.min(), px.max(), case["bins"]), abs(px).max(), "grid in x")
    near(yi[0], np.linspace(py.min(), py.max(), case["bins"]), 10., "grid in y")
    z = kde(px, py, xi.ravel(), yi.ravel())
    near(zi.ravel(), z, abs(z).max() * 10, "density")
    vh.equal([list(a[0]) for a, _ in ax.of("set_xlim")], [[px.min(), px.max()]], "range of x")
    vh.equal([list(a[0]) for a, _ in ax.of("set_ylim")], [[py.min(), py.max()]], "range of y")
    for p, q in zip(copies, (sx, y)):
        assert np.array_equal(dt(p), dt(q), equal_nan=True), "arguments changed"
    ctx.nontrivial(True)


@C.prop("densities", cases, quick=60)
def densities(case, ctx):
    """Density plots of match-ups are of the match-ups of all series."""
    mod = importlib.import_module(VIS)
    v = Vis(dict(case, gaps=False))
    if v.cut[-1] < 6:
        return
    h = mod.HarmonisationVis(v.mup, v.result)
    want = v.values()
    todo = [("plot_kres_nom_nom_density", "k_res_nominal_density.pdf", "times", "kres_nom_nom"),
            ("plot_kres_harm_harm_density", "k_res_harmonised_density.pdf", "times", "kres_harm_harm"),
            ("plot_kres_nom_harm_density", "k_res_nom_harm_density.pdf", "times", "kres_nom_harm"),
            ("plot_L1_nom_v_L2_nom_density", "L1_vs_L2_nominal_density.pdf", "L2_nom", "L1_nom"),
            ("plot_L1_harm_v_L2_harm_density", "L1_vs_L2_harmonised_density.pdf", "L2_harm", "L1_harm")]
    # One, as they take long.
    call, name, x, y = todo[case["order"] % len(todo)]
    figs = drawn(lambda folder: getattr(h, call)(folder))
    vh.equal(list(figs), [name], "figures")
    ax = figs[name]
    (xi, yi, zi), _ = ax.of("pcolormesh")[0]
    (X, mx), (Y, my) = want[x], want[y]
    near([xi.min(), xi.max()], np.array([X.min(), X.max()]), max(mx), "range of x")
    near([yi.min(), yi.max()], np.array([Y.min(), Y.max()]), max(my), "range of y")
    pick = slice(0, None, 1 + zi.size // 97)
    z = kde(X, Y, xi.ravel()[pick], yi.ravel()[pick])
    near(zi.ravel()[pick], z, abs(z).max() * 1000, "density")
    assert str(v.cut[-1]) in ax.of("text")[0][0][2], "number of match-ups"
    ctx.nontrivial(len(v.d) > 1)
