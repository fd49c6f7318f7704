import numpy as np
from numpy import linalg as LA


def get_orthogonal_basis(vector, normalize=True):
    """Right-handed orthonormal basis (columns); the first column is ``vector``."""
    vector = np.array(vector, dtype=float)
    if normalize:
        norm = LA.norm(vector)
        if not norm:
            raise ValueError("Orthogonal basis of a zero vector is not defined.")
        vector = vector / norm

    dim = vector.shape[0]
    basis = np.zeros((dim, dim))
    basis[:, 0] = vector
    if dim == 1:
        return basis
    if dim == 2:
        basis[:, 1] = [-vector[1], vector[0]]
        return basis
    if dim == 3:
        first = np.array([-vector[1], vector[0], 0.0])
        norm = LA.norm(first)
        basis[:, 1] = first / norm if norm else np.array([1.0, 0.0, 0.0])
        second = np.cross(basis[:, 0], basis[:, 1])
        basis[:, 2] = second / LA.norm(second)
        return basis

    # General dimension: Gram-Schmidt over the unit axes
    count = 1
    for ii in np.argsort(np.abs(vector), kind="stable"):
        cand = np.zeros(dim)
        cand[ii] = 1.0
        cand = cand - basis[:, :count] @ (basis[:, :count].T @ cand)
        norm = LA.norm(cand)
        if norm > 1e-8 and count < dim:
            basis[:, count] = cand / norm
            count += 1
    return basis


def logical_xor(value1, value2):
    return bool(value1) ^ bool(value2)
