from . import Anything


def __getattr__(name):
    if name.startswith("_"):
        raise AttributeError(name)
    return Anything()
