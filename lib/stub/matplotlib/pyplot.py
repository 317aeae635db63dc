import numpy as np

from . import FIGURES, Anything, rcParams

_open = []


class _Box(object):
    x0, y0, width, height = 0.125, 0.11, 0.775, 0.77
    x1, y1 = 0.9, 0.88
    bounds = (x0, y0, width, height)


def _limits(a, b):
    return tuple(a) if b is None and np.ndim(a) else (a, b)


class Axes(object):
    def __init__(self, figure=None):
        self.calls = []
        self.transAxes = "axes"
        self.figure = figure

    def _record(self, name, args, kwargs):
        self.calls.append((name, args, kwargs))

    def of(self, name):
        return [(a, k) for n, a, k in self.calls if n == name]

    def get_position(self):
        return _Box()

    def get_figure(self):
        return self.figure

    def errorbar(self, x, y, yerr=None, xerr=None, fmt="", label="_nolegend_", **kwargs):
        x, y = np.atleast_1d(np.asarray(x)), np.atleast_1d(np.asarray(y))
        if len(x) != len(y):
            raise ValueError("'x' and 'y' must have the same size")
        for e in (yerr, xerr):
            if e is not None and np.ndim(e) and np.shape(e)[-1] != len(x):
                raise ValueError("'yerr' and 'xerr' must have the size of the data")
        self._record("errorbar", (x.copy(), y.copy()),
                     dict(kwargs, label=label,
                          yerr=None if yerr is None else np.broadcast_to(np.array(yerr, float), x.shape),
                          xerr=None if xerr is None else np.broadcast_to(np.array(xerr, float), x.shape)))
        return Anything()

    def plot(self, x, y, *fmt, **kwargs):
        return [self.errorbar(x, y, **kwargs)]

    def scatter(self, x, y, *args, **kwargs):
        return self.errorbar(x, y, label=kwargs.get("label", "_nolegend_"))

    def hist2d(self, x, y, bins=10, **kwargs):
        h, xe, ye = np.histogram2d(x, y, bins=bins)
        self._record("hist2d", (np.array(x), np.array(y)), dict(kwargs, bins=bins))
        return h, xe, ye, Anything()

    def axhline(self, y=0, *args, **kwargs):
        self._record("axhline", (), dict(kwargs, y=y))

    def axvline(self, x=0, *args, **kwargs):
        self._record("axvline", (), dict(kwargs, x=x))

    def set_xlim(self, left=None, right=None, **kwargs):
        self._record("set_xlim", (_limits(kwargs.get("xmin", left), kwargs.get("xmax", right)),), {})

    def set_ylim(self, bottom=None, top=None, **kwargs):
        self._record("set_ylim", (_limits(kwargs.get("ymin", bottom), kwargs.get("ymax", top)),), {})

    def set_xlabel(self, xlabel, *args, **kwargs):
        self._record("set_xlabel", (xlabel,), kwargs)

    def set_ylabel(self, ylabel, *args, **kwargs):
        self._record("set_ylabel", (ylabel,), kwargs)

    def set_title(self, label, *args, **kwargs):
        self._record("set_title", (label,), kwargs)

    def set_xticks(self, ticks, labels=None, **kwargs):
        self._record("set_xticks", (ticks,), kwargs)
        if labels is not None:
            self.set_xticklabels(labels)

    def set_xticklabels(self, labels, **kwargs):
        self._record("set_xticklabels", (labels,), kwargs)

    def text(self, x, y, s, *args, **kwargs):
        self._record("text", (x, y, s), kwargs)
        return Anything()

    def pcolormesh(self, *args, **kwargs):
        self._record("pcolormesh", args, kwargs)
        return Anything()

    def set(self, **kwargs):
        for k, v in kwargs.items():
            getattr(self, "set_" + k)(v)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        if name in ("xaxis", "yaxis", "spines"):
            return Anything()

        def f(*args, **kwargs):
            self._record(name, args, kwargs)
            return Anything()
        return f


class Figure(object):
    def __init__(self, **kwargs):
        self.kwargs, self.axes = kwargs, []

    def add_subplot(self, *args, **kwargs):
        self.axes.append(Axes(self))
        return self.axes[-1]

    add_axes = add_subplot

    def subplots(self, nrows=1, ncols=1, **kwargs):
        if nrows == ncols == 1:
            return self.add_subplot()
        a = np.empty((nrows, ncols), dtype=object)
        for i in np.ndindex(nrows, ncols):
            a[i] = self.add_subplot()
        return np.squeeze(a)

    def gca(self):
        return self.axes[-1] if self.axes else self.add_subplot(111)

    def colorbar(self, *args, **kwargs):
        self.gca()._record("colorbar", args, kwargs)
        return Anything()

    def savefig(self, path, *args, **kwargs):
        open(path, "wb").close()
        FIGURES.append({"path": str(path), "axes": list(self.axes), "kwargs": self.kwargs})

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return Anything()


def figure(num=None, **kwargs):
    _open.append(Figure(**kwargs))
    return _open[-1]


def subplots(nrows=1, ncols=1, **kwargs):
    f = figure(**kwargs)
    return f, f.subplots(nrows, ncols)


def gcf():
    return _open[-1] if _open else figure()


def gca():
    return gcf().gca()


def subplot(*args, **kwargs):
    return gcf().add_subplot(*args, **kwargs)


axes = subplot


def get_cmap(name=None, lut=None):
    return lambda v: (float(v), 0.5, 0.5, 1.0)


def colorbar(*args, **kwargs):
    return gcf().colorbar(*args, **kwargs)


def savefig(path, *args, **kwargs):
    gcf().savefig(path, *args, **kwargs)


def close(fig=None):
    if fig == "all":
        del _open[:]
    elif fig is None and _open:
        _open.pop()
    elif fig in _open:
        _open.remove(fig)


def show(*args, **kwargs):
    pass


_OF_AXES = {n: "set_" + n for n in ("xlabel", "ylabel", "title", "xlim", "ylim", "xscale", "yscale")}


def __getattr__(name):
    """Anything else is a method of the current axes; nothing to return."""
    if name.startswith("_"):
        raise AttributeError(name)
    return lambda *args, **kwargs: getattr(gca(), _OF_AXES.get(name, name))(*args, **kwargs) \
        if name not in ("tight_layout", "ion", "ioff", "draw", "subplots_adjust", "rc", "clf", "style") else None
