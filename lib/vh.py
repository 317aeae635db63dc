"""Shared harness of the checks in /verif/checks.

A check module builds one Check object and registers properties on it:

    C = Check("P01", title, rule=..., assumptions=[...])

    @C.prop("roundtrip", strategy, quick=200, thorough=5000)
    def roundtrip(case, ctx): ...

`strategy` is a zero-argument callable returning a Hypothesis strategy whose values are plain JSON data; every random
choice of a case is in that value, so that the JSON written to the replay file is the whole case. The function raises
(an assertion, or whatever the code under test raised) when the property does not hold.

Every run mirrors /repo's working tree to a scratch directory, builds what the check asks for there, and removes it.
"""

import atexit
import contextlib
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = sys.executable
WHEELS = "/opt/veriftools/wheels"
KNOWN = os.path.join(VERIF, "known_findings.txt")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
BUDGET = {"quick": 420.0, "thorough": 3 * 3600.0}
SHRINK_S = {"quick": 60.0, "thorough": 240.0}
CASE_CPU_S = 120.0
# Ends at the first failure found, unshrunk (for trying many planted bugs).
FAST = bool(os.environ.get("VERIF_FAST"))
# A tree mirrored and built before, which runs start from a copy of (see docs/mutate.py).
BASE = os.environ.get("VERIF_BASE")

T0 = time.time()


class HarnessError(Exception):
    pass


class StopSearch(BaseException):
    """Ends a search (shrinking took long, or a case did not end)."""


class CaseTimeout(BaseException):
    pass


# ---------------------------------------------------------------------------------------------------------------------
# Scratch space and builds


class Workspace(object):
    """A scratch directory with what is built from /repo's working tree."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-")
        self.tree = os.path.join(self.dir, "tree")
        if BASE:
            subprocess.run(["cp", "-a", os.path.join(BASE, "tree"), self.tree], check=True)
        else:
            os.mkdir(self.tree)
        self.files = os.path.join(self.dir, "files")
        os.mkdir(self.files)
        self._have = set()
        os.environ["HOME"] = self.files  # pyximport keeps its folder in HOME
        atexit.register(shutil.rmtree, self.dir, True)

    def env(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", FC="gfortran", CC="gcc", TZ="UTC",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        env.pop("PYTHONPATH", None)
        return env

    def _run(self, cmd, cwd):
        r = subprocess.run(cmd, cwd=cwd, env=self.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise HarnessError("%s\n%s" % (cmd, r.stdout.decode(errors="replace")[-4000:]))

    def mirror(self, name):
        # One state file per part, as the parts are mirrored one by one.
        if name not in self._have:
            state = os.path.join(self.tree, ".state.json")
            if BASE and os.path.exists(os.path.join(BASE, name + ".json")):
                shutil.copy(os.path.join(BASE, name + ".json"), state)
            self._run([PY, "-W", "ignore", "/opt/vp/py2tree.py", REPO, self.tree, name], self.dir)
            if os.path.exists(state):
                os.remove(state)
            self._have.add(name)

    def build_cython(self):
        self.mirror("harmonisation_eiv")
        if "cython" not in self._have:
            self._run([PY, "/opt/vp/setup_ext.py"], os.path.join(self.tree, "harmonisation_eiv"))
            self._have.add("cython")

    def build_fortran(self):
        self.mirror("harmonisation_meiv_demo")
        b = os.path.join(self.tree, "meiv-build")
        if "fortran" not in self._have:
            self._run(["cmake", "-S", os.path.join(self.tree, "harmonisation_meiv_demo"), "-B", b,
                       "-DNETCDF_Fortran_MODULE=/usr/include/netcdf.mod"], self.dir)
            self._run(["cmake", "--build", b, "-j", "8"], self.dir)
            self._have.add("fortran")
        return b

    def build_driver(self):
        """Builds the Fortran modules with run-time checks, and /verif/fortran/driver.F90 with them."""
        self.mirror("harmonisation_meiv_demo")
        b = os.path.join(self.tree, "meiv-check")
        exe = os.path.join(b, "verif-driver")
        if "driver" not in self._have:
            self._run(["cmake", "-S", os.path.join(self.tree, "harmonisation_meiv_demo"), "-B", b,
                       "-DCMAKE_Fortran_FLAGS=-g -O1 -fcheck=all,no-array-temps", "-DNETCDF_Fortran_MODULE=/usr/include/netcdf.mod"], self.dir)
            self._run(["cmake", "--build", b, "-j", "8"], self.dir)
            objects = []
            for d, _, names in os.walk(os.path.join(b, "CMakeFiles", "harmonisation-demo.dir")):
                objects += [os.path.join(d, n) for n in names if n.endswith(".o") and not n.startswith("demo.")]
            self._run(["gfortran", "-g", "-O1", "-I", b, "-o", exe, os.path.join(VERIF, "fortran", "driver.F90")] +
                      sorted(objects) + ["-lnetcdff", "-lnetcdf"], self.dir)
            self._have.add("driver")
        return exe

    def hypothesis(self):
        """Makes Hypothesis importable: its wheels are unpacked into the scratch directory."""
        if "hyp" in self._have:
            return
        try:
            import hypothesis  # noqa: F401
        except ImportError:
            dst = os.path.join(self.dir, "hyp")
            names = sorted(os.listdir(WHEELS))
            for want in ("hypothesis-", "sortedcontainers-", "attrs-"):
                c = [n for n in names if n.startswith(want) and ("py3-none-any" in n or "cp312-cp312-" in n)]
                if not c:
                    raise HarnessError("no wheel of " + want)
                with zipfile.ZipFile(os.path.join(WHEELS, c[-1])) as z:
                    z.extractall(dst)
            sys.path.append(dst)
            import hypothesis  # noqa: F401
        self._have.add("hyp")

    def use_eiv(self, cython=False):
        """Puts the mirrored harmonisation_eiv package on sys.path."""
        # Some modules call pyximport.install(), which would otherwise build what is missing, in folders shared by runs.
        self.build_cython()
        p = os.path.join(self.tree, "harmonisation_eiv")
        if p not in sys.path:
            sys.path.insert(0, p)

    def use_tools(self):
        self.mirror("tools")
        p = os.path.join(self.tree, "tools")
        if p not in sys.path:
            sys.path.insert(0, p)

    @contextlib.contextmanager
    def tmp(self):
        d = tempfile.mkdtemp(dir=self.files)
        try:
            yield d
        finally:
            shutil.rmtree(d, True)


WS = None


def ws():
    global WS
    if WS is None:
        WS = Workspace()
    return WS


MU = "harmonisation.core.matchup."
EIV = MU + "matchupToolbox.harmonisation.harmonisationProcessing.harmonisation_eiv."


def eiv(name, cython=False):
    ws().use_eiv(cython)
    return importlib.import_module(name)


def tool(name):
    ws().use_tools()
    return importlib.import_module(name)


@contextlib.contextmanager
def quiet():
    """Discards what the code under test prints (also below Python)."""
    sys.stdout.flush()
    sys.stderr.flush()
    null = os.open(os.devnull, os.O_WRONLY)
    o1, o2 = os.dup(1), os.dup(2)
    os.dup2(null, 1)
    os.dup2(null, 2)
    try:
        yield
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(o1, 1)
        os.dup2(o2, 2)
        for fd in (null, o1, o2):
            os.close(fd)


# ---------------------------------------------------------------------------------------------------------------------
# Data made from a drawn integer: a pure function of (key, n), so cases stay small and replay exactly.


def uni(key, n):
    """n numbers in (0, 1) from the integer key (splitmix64 of the position; no generator state)."""
    import numpy as np

    shape = n if isinstance(n, tuple) else (n,)
    m = 1
    for s in shape:
        m *= int(s)
    base = int.from_bytes(hashlib.sha256(repr(key).encode()).digest()[:8], "little")
    with np.errstate(over="ignore"):
        x = (np.arange(m, dtype=np.uint64) + np.uint64(1)) * np.uint64(0x9E3779B97F4A7C15) + np.uint64(base)
        x = (x ^ (x >> np.uint64(30))) * np.uint64(0xBF58476D1CE4E5B9)
        x = (x ^ (x >> np.uint64(27))) * np.uint64(0x94D049BB133111EB)
        x = x ^ (x >> np.uint64(31))
    return ((x >> np.uint64(11)).astype(float) + 0.5).reshape(shape) / 2.0 ** 53


def rng(key, n, lo, hi):
    return lo + (hi - lo) * uni(key, n)


def gauss(key, n):
    from scipy.special import ndtri

    return ndtri(uni(key, n))


# ---------------------------------------------------------------------------------------------------------------------
# Checks


class Ctx(object):
    def __init__(self, check, prop):
        self.check, self.prop = check, prop
        self.is_nontrivial = False

    def nontrivial(self, cond=True):
        self.is_nontrivial = self.is_nontrivial or bool(cond)

    def label(self, *names):
        for n in names:
            key = self.prop + ":" + str(n)
            self.check.labels[key] = self.check.labels.get(key, 0) + 1

    @contextlib.contextmanager
    def finding(self, key, only=Exception):
        """A part of the oracle that fails on the unchanged tree for a listed, unrepaired finding."""
        try:
            yield
        except Exception as e:
            if isinstance(e, only) and key in self.check.findings:
                self.check.seen[key] = "%s: %s" % (type(e).__name__, str(e)[:200])
            else:
                raise


class Prop(object):
    def __init__(self, name, strategy, quick, thorough, func, explicit):
        self.name, self.strategy, self.quick, self.thorough = name, strategy, quick, thorough
        self.func, self.explicit = func, explicit


class Check(object):
    def __init__(self, pid, rule, assumptions=(), setup=None):
        self.pid, self.rule, self.assumptions, self.setup = pid, rule, list(assumptions), setup
        self.props = []
        self.labels, self.seen = {}, {}
        self.evaluations, self.nontrivial, self.samples = 0, set(), []
        self.per_prop = {}
        self.findings = read_findings(pid)

    def prop(self, name, strategy, quick, thorough=None, explicit=()):
        def deco(f):
            self.props.append(Prop(name, strategy, quick, thorough or quick * 20, f, list(explicit)))
            return f

        return deco

    # One case, under the watch of a CPU-time limit far above what any case takes.
    def evaluate(self, prop, case):
        ctx = Ctx(self, prop.name)
        signal.signal(signal.SIGPROF, _on_cpu_limit)
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
        try:
            prop.func(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            self.evaluations += 1
            pp = self.per_prop.setdefault(prop.name, [0, 0])
            pp[0] += 1
            if ctx.is_nontrivial:
                h = hashlib.sha1((prop.name + dumps(case)).encode()).digest()
                if h not in self.nontrivial:
                    self.nontrivial.add(h)
                    pp[1] += 1
                    if pp[1] in (1, 7):
                        text = dumps(case)
                        self.samples.append({"property_part": prop.name,
                                             "case": json.loads(text) if len(text) < 3000 else text[:3000]})

    def search(self, prop, tier, seed, n):
        """The smallest failing case and its traceback, or None."""
        import hypothesis
        from hypothesis import HealthCheck, Phase, settings

        failures = []
        state = {"first": None, "out_of_time": 0}

        def one(case):
            if time.time() - T0 > BUDGET[tier] and not failures:
                state["out_of_time"] += 1
                return
            if state["first"] and time.time() - state["first"] > SHRINK_S[tier]:
                raise StopSearch()
            try:
                self.evaluate(prop, case)
            except CaseTimeout:
                failures.append((case, "a case used over %d s of CPU time and was stopped" % CASE_CPU_S))
                raise StopSearch()
            except (hypothesis.errors.HypothesisException, HarnessError):
                raise
            except Exception:
                state["first"] = state["first"] or time.time()
                failures.append((case, traceback.format_exc()))
                raise

        for case in prop.explicit:
            try:
                one(case)
            except (Exception, StopSearch):
                if not failures:
                    raise
                return failures[-1]

        test = settings(max_examples=n, deadline=None, database=None, print_blob=False, report_multiple_bugs=False,
                        phases=(Phase.generate, Phase.target) + ((), (Phase.shrink,))[not FAST],
                        suppress_health_check=list(HealthCheck))(
            hypothesis.given(prop.strategy() if callable(prop.strategy) else prop.strategy)(one))
        test = hypothesis.seed(seed)(test)
        try:
            with quiet_stdout():
                test()
        except HarnessError:
            raise
        except StopSearch:
            pass
        except BaseException:
            if not failures:
                raise
        if state["out_of_time"]:
            self.labels[prop.name + ":not run, out of time"] = state["out_of_time"]
        if failures:
            return min(failures, key=lambda f: len(dumps(f[0])))
        return None

    def main(self, tier, seed, replay=None):
        os.environ["TZ"] = "UTC"
        time.tzset()
        import numpy as np

        np.seterr(all="ignore")
        import warnings

        warnings.simplefilter("ignore")
        w = ws()
        w.hypothesis()
        if self.setup:
            self.setup(w)

        if replay:
            with open(replay) as f:
                r = json.load(f)
            prop = [p for p in self.props if p.name == r["part"]][0]
            try:
                self.evaluate(prop, r["case"])
            except CaseTimeout:
                print("case did not end")
                print("VIOLATION property=%s replay=%s" % (self.pid, replay))
                return 1
            except Exception:
                traceback.print_exc(file=sys.stdout)
                print("VIOLATION property=%s replay=%s" % (self.pid, replay))
                return 1
            print("replay passes")
            return 0

        fail, prop = self.run_jobs(tier, seed)

        path = None
        if fail:
            path = os.path.join(EVIDENCE, "replay-%s-%s.json" % (self.pid, prop.name.replace(" ", "-")))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                json.dump({"property": self.pid, "part": prop.name, "seed": seed, "case": json.loads(dumps(fail[0])),
                           "failure": fail[1]}, f, indent=1)
        self.write_evidence(tier, seed, 1 if fail else 0)
        for key in sorted(self.findings):
            if key in self.seen:
                print("KNOWN-FINDING: property=%s %s [%s]" % (self.pid, self.findings[key], key))
        if fail:
            print(fail[1])
            print("case: " + dumps(fail[0])[:2000])
            print("replay with: %s --replay %s" % (os.path.join(VERIF, "check") + " " + self.pid, path))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        return 0

    def run_jobs(self, tier, seed):
        """Searches every part, each in a forked process of its own (a thorough search in several, with other seeds).
        Returns ((case, traceback), part) of the first part that fails, or (None, None)."""
        jobs = []
        for i, prop in enumerate(self.props):
            shards = 1 if tier == "quick" else max(1, min(8, prop.thorough // max(prop.quick, 1)))
            for k in range(shards):
                jobs.append((i, k, seed + 1000003 * k,
                             prop.quick if tier == "quick" else -(-prop.thorough // shards)))
        limit = min(8, os.cpu_count() or 1)
        running, results, failed = {}, {}, False
        todo = list(jobs)
        while todo or running:
            while todo and len(running) < limit:
                job = todo.pop(0)
                out = os.path.join(ws().dir, "result-%d-%d.json" % job[:2])
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    rc = 1
                    try:
                        self.child(job, tier, out)
                        rc = 0
                    except BaseException:
                        with open(out + ".err", "w") as f:
                            traceback.print_exc(file=f)
                    finally:
                        os._exit(rc)
                running[pid] = (job, out)
            pid, status = os.wait()
            if pid not in running:
                continue
            job, out = running.pop(pid)
            if status or not os.path.exists(out):
                err = "ended with status %d" % status
                if os.path.exists(out + ".err"):
                    with open(out + ".err") as f:
                        err = f.read()
                results[job[:2]] = {"error": err}
                continue
            with open(out) as f:
                results[job[:2]] = json.load(f)
            if results[job[:2]]["fail"]:
                todo = [j for j in todo if j[0] < job[0]]
                if FAST:
                    todo = []
                    for other in running:
                        os.kill(other, signal.SIGKILL)
                    while running:
                        running.pop(os.wait()[0], None)
        fail, failed_prop, error = None, None, None
        for i, prop in enumerate(self.props):
            n, secs = [0, 0], 0.0
            for k in sorted(key[1] for key in results if key[0] == i):
                r = results[i, k]
                if "error" in r:
                    error = error or "%s: %s" % (prop.name, r["error"])
                    continue
                self.evaluations += r["evaluations"]
                before = len(self.nontrivial)
                self.nontrivial.update(r["nontrivial"])
                n[0] += r["evaluations"]
                n[1] += len(self.nontrivial) - before
                secs = max(secs, r["secs"])
                for key, v in r["labels"].items():
                    self.labels[key] = self.labels.get(key, 0) + v
                self.seen.update(r["seen"])
                if k == 0:
                    self.samples += r["samples"]
                if r["fail"] and not fail:
                    fail, failed_prop = r["fail"], prop
            self.per_prop[prop.name] = n
            print("%s %-28s %7d cases, %7d distinct non-trivial, %.1f s" % (self.pid, prop.name, n[0], n[1], secs))
        if error and not fail:
            raise HarnessError(error)
        return fail, failed_prop

    def child(self, job, tier, out):
        i, k, seed, n = job
        prop = self.props[i]
        t = time.time()
        fail = self.search(prop, tier, seed, n)
        pp = self.per_prop.get(prop.name, [0, 0])
        with open(out, "w") as f:
            f.write(dumps({"fail": fail, "evaluations": pp[0], "secs": time.time() - t, "labels": self.labels,
                           "nontrivial": [h.hex() for h in self.nontrivial], "samples": self.samples,
                           "seen": self.seen}))

    def write_evidence(self, tier, seed, violations):
        path = os.path.join(EVIDENCE, self.pid + ".json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump({
                "property": self.pid, "tier": tier, "seed": seed, "level": "exploration",
                "coverage": {
                    "evaluations": self.evaluations,
                    "distinct_nontrivial": len(self.nontrivial),
                    "rule": self.rule,
                    "samples": self.samples[:16],
                    "parts": {k: {"evaluations": v[0], "distinct_nontrivial": v[1]}
                              for k, v in sorted(self.per_prop.items())},
                    "labels": dict(sorted(self.labels.items())),
                    "known_findings_reproduced": self.seen,
                },
                "assumptions": self.assumptions,
                "wall_s": round(time.time() - T0, 2),
                "violations": violations,
            }, f, indent=1)


@contextlib.contextmanager
def quiet_stdout():
    """Hypothesis and the code under test print to stdout; the verdict lines come after."""
    out, err = sys.stdout, sys.stderr
    null = open(os.devnull, "w")
    sys.stdout = sys.stderr = null
    try:
        yield
    finally:
        sys.stdout, sys.stderr = out, err
        null.close()


def _on_cpu_limit(*_):
    raise CaseTimeout()


def _plain(o):
    import numpy as np

    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    raise TypeError(type(o))


def dumps(o):
    return json.dumps(o, sort_keys=True, default=_plain)


def read_findings(pid):
    """key -> text of the unrepaired findings of a property: lines "finding: property=<id> key=<key> <what fails>".
    Lines "fixed: ..." record repairs and suppress nothing."""
    out = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                w = line.split(None, 3)
                if len(w) == 4 and w[0] == "finding:" and w[1] == "property=" + pid and w[2].startswith("key="):
                    out[w[2][4:]] = w[3].strip()
    except IOError:
        pass
    return out


# ---------------------------------------------------------------------------------------------------------------------
# Oracle helpers


def close(actual, expected, rtol=1e-9, atol=0.0, what="", scale=None):
    """Every element agrees within rtol of the expected magnitude (or of `scale`) plus atol; NaN matches NaN."""
    import numpy as np

    a = np.ma.filled(np.ma.asarray(actual, dtype=float), np.nan)
    e = np.ma.filled(np.ma.asarray(expected, dtype=float), np.nan)
    assert a.shape == e.shape, "%s: shape %s, expected %s" % (what, a.shape, e.shape)
    bad = ~((a == e) | (np.isnan(a) & np.isnan(e)) |
            (np.abs(a - e) <= atol + rtol * (np.abs(e) if scale is None else np.maximum(np.abs(e), scale))))
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        raise AssertionError("%s: at %s is %r, expected %r (%d of %d differ)" % (
            what, i, a[i], e[i], int(bad.sum()), a.size))


def equal(actual, expected, what=""):
    assert actual == expected, "%s: is %r, expected %r" % (what, actual, expected)
