"""Rooted trees and their order conditions (Butcher): phi(t) . b = 1/gamma(t)."""
import numpy as np


def conditions(A, order, dot=None, one=None, mul=lambda a, b: a * b):
    """yields (order of the tree, gamma, stage vector) for every rooted tree up to the order.
    trees are built from multisets of smaller trees; the stage vector is prod_k A.phi(t_k)"""
    dot = dot or (lambda v: A.dot(v))
    one = one if one is not None else np.ones(A.shape[0])
    by = {1: [(1, one, dot(one))]}       # (gamma, phi, A phi)
    yield 1, 1, one

    def forests(total, maxorder, maxidx):
        """multisets of trees with the given total order, listed in decreasing (order, index)"""
        if total == 0:
            yield ()
            return
        for o in range(min(total, maxorder), 0, -1):
            top = len(by[o]) - 1 if o != maxorder else min(len(by[o]) - 1, maxidx)
            for i in range(top, -1, -1):
                for rest in forests(total - o, o, i):
                    yield ((o, i),) + rest
    for q in range(2, order + 1):
        out = []
        for fs in forests(q - 1, q - 1, len(by.get(q - 1, ())) - 1):
            gam = q
            phi = None
            for o, i in fs:
                g, p, ap = by[o][i]
                gam *= g
                phi = ap if phi is None else mul(phi, ap)
            yield q, gam, phi
            out.append((gam, phi, dot(phi)) if q < order else None)
        by[q] = out
