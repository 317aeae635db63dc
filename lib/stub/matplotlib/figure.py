from .pyplot import Axes, Figure
