"""Disjoint sets."""
from .uf import *

UNITS = [unit('uf')]
