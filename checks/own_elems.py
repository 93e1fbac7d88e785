"""Kinds of elements defined outside the package, as a user of it would"""
from x7.geom.model import ElemRectangle, ElemCurve


class OwnRectangle(ElemRectangle):
    ELEM_IMPORTS = ['from checks.own_elems import *']


class OwnCurve(ElemCurve):
    ELEM_IMPORTS = ['from checks.own_elems import OwnCurve', 'import math']
