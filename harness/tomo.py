"""Bases, states and channels for the tomography checks."""
import itertools
import math

import numpy as np

import boot  # noqa: F401
import qutip as qt
from qinfer import tomography as tm

PAULI = np.array([np.eye(2), [[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]], dtype=complex)


def unitary(r, D):
    q, R = np.linalg.qr(r.randn(D, D) + 1j * r.randn(D, D))
    return q * (np.diag(R) / np.abs(np.diag(R)))


def hermitian(r, D):
    h = r.randn(D, D) + 1j * r.randn(D, D)
    return (h + h.conj().T) / 2


def custom(d, D):
    """A tomographic basis from a random rotation of the traceless elements."""
    r = d.rng()
    g = tm.gell_mann_basis(D).data
    o, _ = np.linalg.qr(r.randn(D * D - 1, D * D - 1))
    data = np.concatenate([g[:1], np.tensordot(o, g[1:], 1)])
    labels = d.pick([None, 's', ['L%d' % i for i in range(D * D)]])
    dims = d.pick({4: [[4], [2, 2]], 6: [[2, 3], [3, 2]]}.get(D, [[D]]))
    return tm.TomographyBasis(data, dims, labels, name='custom'), data, dims, labels


def draw_basis(d, maxdim=6, qubits=False):
    kind = d.int(0, 1) if qubits else d.int(0, 4)
    if kind == 0:
        return tm.pauli_basis(d.int(1, 2 if maxdim >= 4 else 1))
    if qubits:
        return tm.gell_mann_basis(d.pick([2, 4] if maxdim >= 4 else [2]))
    if kind == 1:
        return tm.gell_mann_basis(d.int(2, min(5, maxdim)))
    if kind == 2 and maxdim >= 6:
        bs = [tm.pauli_basis(1), tm.gell_mann_basis(3)]
        return tm.tensor_product_basis(*(bs if d.bool() else bs[::-1]))
    if kind == 3 and maxdim >= 4:
        return tm.tensor_product_basis(tm.gell_mann_basis(2), tm.pauli_basis(1))
    return custom(d, d.pick([x for x in (2, 3, 4, 6) if x <= maxdim]))[0]


def vec(basis, M):
    """Coefficients Tr(B^dagger M)."""
    return np.real(np.einsum('aij,ij->a', basis.data.conj(), M))


def mat(basis, x):
    return np.einsum('a,aij->ij', np.asarray(x), basis.data)


def qobj(M, basis):
    return qt.Qobj(M, dims=[list(basis.dims), list(basis.dims)])
