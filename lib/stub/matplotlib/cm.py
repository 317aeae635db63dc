from . import Anything
from .pyplot import get_cmap


def __getattr__(name):
    if name.startswith("_"):
        raise AttributeError(name)
    return get_cmap(name)
