from .pyplot import Axes
