"""generators shared by the checks of the R packages"""
from .engine import *


def gen_names(s, k, prefix):
    pool = ["A", "B2", "income", "z.1", "Q", "rate", "w", "V10", "V1", "u_3", "kk", "L"]
    ix = s.subset(len(pool), k)
    return [prefix + pool[i] for i in ix]


def as_input(s, a, cols):
    """a matrix or a data frame"""
    code = mat(a, cols)
    if cols is not None and s.coin():
        return "as.data.frame(%s)" % code
    return code


def intmat(a, cols=None):
    """literal of an integer matrix"""
    return "local({m <- %s; storage.mode(m) <- 'integer'; m})" % mat(a, cols)
