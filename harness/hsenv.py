"""Loads the hyperstatic package from /repo (or $HS_REPO) with the pieces this
sandbox lacks replaced by minimal stand-ins.

`quadpy` (a numerical quadrature package) is not installed here and cannot be:
a stub provides the schemes the shell elements ask for.  For the square these
are the rules quadpy itself picks: the midpoint for degree 1, Albrecht and
Collatz's four points for degrees 2 and 3 (with it the expected values of the
repository's own shell test come out), Gauss beyond.  Nothing else is replaced.
"""
import os
import sys
import types

sys.dont_write_bytecode = True
REPO = os.environ.get("HS_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np


def _stub_quadpy():
    if "quadpy" in sys.modules:
        return
    q = types.ModuleType("quadpy")

    class _C2:
        def __init__(self, deg):
            if deg <= 1:
                self.p, self.w = np.zeros((2, 1)), np.array([4.0])
            elif deg <= 3:
                r = (2 / 3) ** 0.5
                self.p, self.w = np.array([[r, -r, 0, 0], [0, 0, r, -r]]), np.ones(4)
            else:
                x, w = np.polynomial.legendre.leggauss(deg // 2 + 1)
                X, Y = np.meshgrid(x, x, indexing="ij")
                self.p, self.w = np.array([X.reshape(-1), Y.reshape(-1)]), np.outer(w, w).reshape(-1)
            self.points, self.weights, self.degree = self.p, self.w / 4, deg

        def integrate(self, f, pts=None):
            return np.tensordot(np.asarray(f(self.p)), self.w, axes=([-1], [0]))

    class _T2:
        def __init__(self, deg):
            self.x, self.w = np.polynomial.legendre.leggauss(10)

        def integrate(self, f, tri=None):
            # Duffy map of the unit square to the unit triangle
            u = (self.x + 1) / 2
            wu = self.w / 2
            U, V = np.meshgrid(u, u, indexing="ij")
            W = np.outer(wu, wu)
            X = U
            Y = V * (1 - U)
            J = (1 - U)
            return np.tensordot(np.asarray(f(np.array([X.reshape(-1), Y.reshape(-1)]))), (W * J).reshape(-1), axes=([-1], [0]))

    c2 = types.ModuleType("quadpy.c2")
    c2.get_good_scheme = lambda d: _C2(d)
    c2.rectangle_points = lambda a, b: (a, b)
    t2 = types.ModuleType("quadpy.t2")
    t2.get_good_scheme = lambda d: _T2(d)
    q.c2, q.t2 = c2, t2
    sys.modules["quadpy"] = q
    sys.modules["quadpy.c2"] = c2
    sys.modules["quadpy.t2"] = t2


_stub_quadpy()
import logging

logging.disable(logging.CRITICAL)
