"""Stands in for matplotlib, which is not installed here: records what is drawn, and writes empty files for figures.

`FIGURES` is the list of figures saved, in order, each {"path", "axes": [...], "kwargs"}; an axes holds the calls made on it.
What is not recorded does nothing."""
rcParams = {}
FIGURES = []


class Anything(object):
    """Has every attribute, and can be called."""

    def __call__(self, *args, **kwargs):
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self

    def __getitem__(self, key):
        return self

    def __iter__(self):
        return iter(())


def use(*args, **kwargs):
    pass


def get_backend():
    return "agg"


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    if name == "pyplot":
        import importlib
        return importlib.import_module("matplotlib.pyplot")
    return Anything()
