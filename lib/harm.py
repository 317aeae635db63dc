"""Harmonisation problems: generated data sets with sensor models, and a dense reference of the problem they pose.

The transformed variables v (one per independent error, then one per systematic effect) and the parameters a determine the
state variables X = A v, the measurands R, the adjusted measurands B(R) and K = B(R2) - B(R1). Everything here is computed in
double precision with dense matrices from the model of the files (mu.expand), not from the code under test."""
import importlib

import numpy as np

import mu
import vh
from p06 import dense, load, systematic
from vh import rng

GN = vh.EIV + "GN_algo"


def modules():
    """The solver's modules, with the names in the package that they expect there."""
    vh.ws().use_eiv(cython=True)
    import sys

    top = importlib.import_module("harmonisation")
    for name, mod in (("Sample2Ind", vh.MU + "matchupProcessing.sample2ind.Sample2Ind"),
                      ("Transform2NormInd", vh.MU + "matchupProcessing.transform2normind.Transform2NormInd"),
                      ("HarmonisationResult", vh.MU + "matchupToolbox.harmonisation.harmonisationIO.HarmonisationResult")):
        setattr(top, name, getattr(importlib.import_module(mod), name))
    maths = importlib.import_module(vh.MU + "matchupToolbox.utils.matchup_maths")
    for name in ("evaluate_measurand", "evaluate_adjusted_measurand", "evaluate_K"):
        setattr(top, name, getattr(maths, name))
    return importlib.import_module(GN), sys


class Model(object):
    """A sensor model, polynomial in state variables and, unless warped, linear in parameters; picklable. `size` bounds its terms."""

    def __init__(self, m, spec, key, ref=False, curve=0.03, warp=0., unit=1.):
        """curve: of the state variables; warp: that of the parameters, linear if 0; unit: that or those of the parameters"""
        self.unit = np.broadcast_to(unit, spec["np"]).astype(float)
        self.m, self.spec, self.ref, self.curve, self.warp = m, spec, ref, curve, warp
        self.q = rng((key, "q"), m, 0.3, 1.2) * np.where(vh.uni((key, "s"), m) < 0.3, -1, 1)

    def size(self):
        other = Model(self.m, self.spec, 0, False, self.curve, self.warp, self.unit)
        other.q = abs(self.q)
        return other

    def __call__(self, X, a, c, xt, at, t):
        X = np.asarray(X, dtype=float)
        if self.ref:
            return X[:, 0], None
        a = np.asarray(a, dtype=float) / self.unit
        slope = np.cosh(self.warp * a) / self.unit
        if self.warp:
            a = np.sinh(self.warp * a) / self.warp
        z = X / 100.
        J = np.zeros((len(X), self.m + len(a)))
        R = np.zeros(len(X))
        for k in range(self.m):
            R += self.q[k] * (z[:, k] + self.curve * z[:, k] ** 2)
            J[:, k] = self.q[k] * (1 + 2 * self.curve * z[:, k]) / 100.
        for k in range(len(a)):
            i, p = k % self.m, k // self.m + 1
            if k == 0:
                f, df = np.ones(len(X)), np.zeros(len(X))
            else:
                f, df = z[:, i] ** p / 4. ** (p - 1), p * z[:, i] ** (p - 1) / 100. / 4. ** (p - 1)
            R += a[k] * f
            J[:, self.m + k] = f * slope[k]
            J[:, i] += a[k] * df
        for k, v in enumerate(c):
            R += (k + 1) * v
        if self.spec["uses"]:
            for v, s in ((xt, 0.01), (at, 0.001)):
                if v is not None:
                    R += s * np.mod(np.nan_to_num(np.asarray(v, dtype=float)), 400.)
            R += np.array([float(v.second) for v in t]) / 10.
        return R, J


class Adjust(object):
    def __init__(self, kind):
        self.kind = kind

    def __call__(self, R):
        R = np.asarray(R, dtype=float)
        if self.kind == "scale":
            return 2.5 * R - 3., np.full(len(R), 2.5)
        if self.kind == "square":
            return R + 1e-3 * R ** 2, 1 + 2e-3 * R
        return R, np.ones(len(R))

    def size(self, R):
        return 2.5 * R + 3. if self.kind == "scale" else self(R)[0], self(R)[1]


def spec_strategy(n, min_np=1, max_np=4, adj=("none", "scale", "square")):
    from hypothesis import strategies as st

    return st.lists(st.fixed_dictionaries({"np": st.integers(min_np, max_np), "nc": st.integers(0, 2),
                                           "uses": st.booleans(), "adj": st.sampled_from(adj)}), min_size=n, max_size=n)


class Scene(object):
    """A data set opened by the code under test with sensor models attached, and its dense model."""

    def __init__(self, case, refs=1, curve=0.03, edit=None, warp=0., units=False):
        net, key = case["net"], case["key"]
        self.d = d = [mu.expand(net, i) for i in range(len(net["series"]))]
        if edit:
            edit(d)
        self.mup = mup = load(d)
        self.names, self.ms = mu.sensor_order(d)
        where = [[s["name"] for s in net["sensors"]].index(n) for n in self.names]
        self.ref = [w < refs for w in where]
        self.spec = [dict(case["spec"][w], np=0 if w < refs else case["spec"][w]["np"]) for w in where]
        common = (-8., -8., -5., 0., 2.)[int(vh.uni((key, "units"), 1)[0] * 5)]
        unit = [10. ** np.round(common + rng((key, "unit", n), s["np"], -2., 2.)) if units else np.ones(s["np"])
                for n, s in zip(self.names, self.spec)]
        self.a = [(rng((key, "a", n), s["np"], -3., 3.) * u).astype(np.float32).astype(float)
                  for n, s, u in zip(self.names, self.spec, unit)]
        self.c = [rng((key, "c", n), 0 if r else s["nc"], -3., 3.) for n, s, r in zip(self.names, self.spec, self.ref)]
        self.models = [Model(m, s, (key, n), r, curve, warp, u)
                       for n, m, s, r, u in zip(self.names, self.ms, self.spec, self.ref, unit)]
        self.adj = [Adjust(s["adj"]) for s in self.spec]
        # The parameters are in the order of the collection of sensor data, which may describe other sensors as well.
        order = [int(k) for k in np.argsort(vh.uni((key, "order"), len(self.names)))]
        data = {}
        for k in order:
            data[self.names[k]] = {"sensor_model_parameter": list(self.a[k]), "sensor_model_constant": list(self.c[k]),
                                   "sensor_model": self.models[k]}
            if self.adj[k].kind != "none":
                data[self.names[k]]["adjustment_model"] = self.adj[k]
            if k == 0:
                data["other"] = {"sensor_model_parameter": [7.], "sensor_model_constant": [7.], "sensor_model": None}
        self.data = data
        mup.setSensorData(data)
        self.first, at = [0] * len(order), 0
        for k in order:
            self.first[k] = at
            at += len(self.a[k])
        self.parameters = np.concatenate([self.a[k] for k in order] + [np.zeros(0)])
        self.unit = np.concatenate([unit[k] for k in order] + [np.zeros(0)])
        self.parameter_sensors = [self.names[k] for k in order for _ in self.a[k]]
        self.n_a = len(mup.a)
        self.uk = [np.hypot(v["Kr"].astype(float), v["Ks"].astype(float)) for v in d]
        self.n_mu = sum(v["M"] for v in d)
        self._blocks()

    def _blocks(self):
        """A: block -> matrix from v to its state variable."""
        sysn = systematic(self.d)
        bl = mu.blocks(self.d)
        size = [self.d[i]["M"] if self.d[i]["uncertainty_type" + s][c] < 3
                else len(self.d[i]["u"][self.d[i]["u_matrix_use" + s][c] - 1]) for i, s, c in bl]
        self.n_sys, self.n_var = len(sysn), sum(size) + len(sysn)
        self.A, at = {}, 0
        for (i, s, c), n in zip(bl, size):
            v = self.d[i]
            t = int(v["uncertainty_type" + s][c])
            A = np.zeros((v["M"], self.n_var))
            us = v["Us" + s][:, c].astype(float) if t == 2 else float(v["Us" + s][0, c]) if t == 4 else 0.
            if t in (1, 2):
                A[:, at:at + n] = np.diag(v["Ur" + s][:, c].astype(float))
                one = np.ones(v["M"])
            else:
                W = dense(v["w"][v["w_matrix_use" + s][c] - 1], n)
                A[:, at:at + n] = W * v["u"][v["u_matrix_use" + s][c] - 1]
                one = W.dot(np.ones(n))
            if t in (2, 4):
                A[:, self.n_var - self.n_sys + sysn[v["name" + s], c]] = us * one
            self.A[i, s, c] = A
            at += n
        self.sys_order = [k for k, _ in sorted(sysn.items(), key=lambda kv: kv[1])]

    def inputs(self, i, s):
        """What the model of the sensor of series i, side s gets besides data and parameters."""
        v = self.d[i]
        k = self.names.index(v["name" + s])
        mup, n = self.mup, self.names[k]
        a, b = mup.idx["cNm"][i:i + 2]
        return k, (mup.getSensorAcrossTrackIndex(i + 1, n), mup.getSensorAlongTrackIndex(i + 1, n),
                   getattr(mup, "time" + s)[a:b])

    def evaluate(self, v, a, size=False):
        """(K by series normalised by its uncertainty, J over all variables and parameters); or the size of their terms."""
        first = self.first
        ks, Js = [], []
        for i, d in enumerate(self.d):
            k_i, J_i = np.zeros(d["M"]), np.zeros((d["M"], self.n_var + self.n_a))
            for s in "12":
                k, rest = self.inputs(i, s)
                sign = 1. if (s == "2" or size) else -1.
                par = a[first[k]:first[k] + len(self.a[k])]
                m = 1 if self.ref[k] else self.ms[k]
                A = [self.A[i, s, c] for c in range(m)]
                X = np.array([(abs(q).dot(abs(v)) if size else q.dot(v)) for q in A]).T
                if self.ref[k]:
                    R, J = X[:, 0], np.ones((d["M"], 1))
                elif size:
                    R, J = self.models[k].size()(X, abs(par), abs(self.c[k]), *rest)
                else:
                    R, J = self.models[k](X, par, self.c[k], *rest)
                B, dB = self.adj[k].size(R) if size else self.adj[k](R)
                k_i += sign * B / self.uk[i]
                w = sign * dB / self.uk[i]
                for c in range(m):
                    J_i[:, :self.n_var] += (w * J[:, c])[:, None] * (abs(A[c]) if size else A[c])
                for q in range(len(par)):
                    J_i[:, self.n_var + first[k] + q] += w * J[:, m + q]
            ks.append(k_i)
            Js.append(J_i)
        J = np.zeros((self.n_var + self.n_mu, self.n_var + self.n_a))
        J[:self.n_var, :self.n_var] = np.eye(self.n_var)
        J[self.n_var:] = np.concatenate(Js)
        return np.concatenate(ks), J


def cases(refs=1, max_sensors=4, max_series=4, max_m=4, max_M=6, types=(1, 2, 3, 4), min_M=1, min_np=1, **kw):
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "net": mu.networks(max_sensors=max_sensors, max_series=max_series, max_m=max_m, max_M=max_M, types=types,
                           min_M=min_M, refs=refs),
        "spec": spec_strategy(max_sensors, min_np=min_np, **kw), "key": st.integers(0, 2 ** 20)})
