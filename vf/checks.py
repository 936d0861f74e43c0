from .core import *

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco

from . import c_interp, c_grid, c_calc, c_kin, c_linear, c_vec, c_signal, c_special, c_arr, c_conc  # noqa
