"""independent reference objects (built from bit action, not from the package)"""
import numpy as np


def lower_op(n, i):
    """a_i: site 0 is the most significant bit; sign counts occupied sites before i"""
    N = 2 ** n
    M = np.zeros((N, N))
    for b in range(N):
        bits = [(b >> (n - 1 - k)) & 1 for k in range(n)]
        if bits[i]:
            M[b & ~(1 << (n - 1 - i)), b] = (-1) ** sum(bits[:i])
    return M


def ladder(n):
    """[a_0^dag .. a_{n-1}^dag, a_0 .. a_{n-1}]"""
    a = [lower_op(n, i) for i in range(n)]
    return [x.T.copy() for x in a] + a


def swap_metric(n):
    Z, I = np.zeros((n, n)), np.eye(n)
    return np.block([[Z, I], [I, Z]])


PAULI = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]


def pauli_string(digits):
    m = np.eye(1)
    for d in digits:
        m = np.kron(m, PAULI[d])
    return m


def lin(coefs, ops):
    t = 0
    for c, o in zip(coefs, ops):
        t = t + c * o
    return t


def nonneg_or_zero(ctx, x, gap):
    """x is exactly 0 or |x|^2 > gap"""
    re, im = x.real, x.imag
    s = re * re + im * im
    return ctx.or_(s == 0, s > gap)
