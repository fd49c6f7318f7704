"""Stand-in for the un-vendored third-party package ``vartools``
(hubernikus/various_tools), which is not installed in this sandbox.

Written from the package's public interface as /repo uses it.  It is part of the
simulated environment, never of the code under test."""
import numpy as np


def cross2d(a, b):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    return a[0] * b[1] - a[1] * b[0]
