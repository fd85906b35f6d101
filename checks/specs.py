"""Slow (direct) scattering: specifications as terms and as numbers, written from the mathematics of the schemes."""
from fractions import Fraction as Fr
import numpy as np
import scipy.linalg as sla
from common import *
from expr import C, const, var, cf, cexp, IU, ONE, ZERO, mul, fconst

H = const(Fr(1, 2))
CFW = {'BO': [(1, 0)], 'CF4_2': [(Fr(1, 2), 0)] * 2, 'CF4_3': [(Fr(11, 40), 0), (Fr(9, 20), 0), (Fr(11, 40), 0)],
       'CF5_3': [(Fr(3, 10), Fr(1, 10)), (Fr(2, 5), 0), (Fr(3, 10), Fr(-1, 10))],
       }
# Blanes, Casas & Thalhammer, CFET 6:4 with three Gauss nodes: published decimals of the node weights
_l = lambda x: fconst(float(x)).a[0]
CF64 = [[('0.245985577298764', '0.038734389227165'), ('-0.046806149832549', '0.012442141491185'), ('0.010894359342569', '-0.004575808769067')],
        [('0.062868370946917', '-0.048761268117765'), ('0.269028372054771', '-0.012442141491185'), ('-0.041970529810473', '0.014602687659668')]]
CF64 = [[(_l(a), _l(b)) for a, b in r] for r in CF64]
CF64 += [CF64[1][::-1], CF64[0][::-1]]
CFW['CF6_4'] = [(sum(x[0] for x in r), sum(x[1] for x in r)) for r in CF64]
SLOW = ['BO', 'CF4_2', 'CF4_3', 'CF5_3', 'CF6_4', 'ES4', 'TES4']
cz = lambda t: C(const(t[0]), const(t[1]))


# ------------------------------------------------------------- symbolic, with dual numbers for d/dlambda
class Du:
    """value and derivative with respect to lambda"""
    def __init__(s, v, d=None):
        s.v = C.of(v); s.d = C.of(0) if d is None else C.of(d)
    def __add__(a, b): b = du(b); return Du(a.v + b.v, a.d + b.d)
    def __sub__(a, b): b = du(b); return Du(a.v - b.v, a.d - b.d)
    def __mul__(a, b):
        b = du(b); return Du(a.v * b.v, a.d * b.v + a.v * b.d)
    def __neg__(a): return Du(-a.v, -a.d)
    __radd__ = __add__; __rmul__ = __mul__
    def __rsub__(a, b): return du(b) - a
    def inv(a):
        i = C.of(1) / a.v; return Du(i, -(a.d * i * i))


def du(x):
    return x if isinstance(x, Du) else Du(x)


def dexp(a):
    e = cexp(a.v); return Du(e, a.d * e)


def expm2(x, y, z, root=None):
    """expm([[x,y],[z,-x]]), dual entries; 2x2 list"""
    s = -(x * x + y * z)
    w = cf('csqrt', s.v)
    if root is not None:
        w = root
    c, sn = cf('ccos', w), cf('csin', w)
    sc = sn / w
    dw = s.d / (w * C.of(2))
    cos = Du(c, -(sn * dw))
    sinc = Du(sc, (c - sc) / w * dw)
    return [[cos + sinc * x, sinc * y], [sinc * z, cos - sinc * x]]


def mm(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(1, len(B))), A[i][0] * B[0][j]) for j in range(len(B[0]))] for i in range(len(A))]


def step_exponents(disc, n, q, r, lam, eps):
    """list of (x,y,z) of the exponentials of one given sample (first applied first); q,r lists of the effective samples"""
    l = Du(lam, 1)
    E = C.of(eps)
    if disc in CFW:
        out = []
        m = len(CFW[disc])
        for k in range(m):
            h = E * cz(CFW[disc][k])
            kk = n * m + k
            out.append((Du(-(IU * h)) * l, Du(q[kk] * h), Du(r[kk] * h)))
        return out
    q0, q1, q2, r0, r1, r2 = q[3 * n], q[3 * n + 1], q[3 * n + 2], r[3 * n], r[3 * n + 1], r[3 * n + 2]
    e1, e2, e3 = E, E * E, E * E * E
    if disc == 'ES4':
        c12 = C.of(const(Fr(1, 12))); c24 = C.of(const(Fr(1, 24))); c6 = C.of(const(Fr(1, 6)))
        x = Du(-(IU * e1)) * l - Du(e3 * c12 * (q0 * r1 - q1 * r0))
        y = Du(e1 * q0 + e3 * c24 * q2) + Du(IU * e3 * c6 * q1) * l
        z = Du(e1 * r0 + e3 * c24 * r2) - Du(IU * e3 * c6 * r1) * l
        return [(x, y, z)]
    c48 = C.of(const(Fr(1, 48))); c12 = C.of(const(Fr(1, 12)))
    o = Du(C.of(0))
    return [(o, Du(e3 * c48 * q2 - e2 * c12 * q1), Du(e3 * c48 * r2 - e2 * c12 * r1)),
            (Du(-(IU * e1)) * l, Du(e1 * q0), Du(e1 * r0)),
            (o, Du(e3 * c48 * q2 + e2 * c12 * q1), Du(e3 * c48 * r2 + e2 * c12 * r1))]


def step_matrix(disc, n, q, r, lam, eps):
    P = None
    for x, y, z in step_exponents(disc, n, q, r, lam, eps):
        M = expm2(x, y, z)
        P = M if P is None else mm(M, P)
    return P


def basis_to_S(pde, disc, vanilla, lam, eps):
    """columns of the discretization's basis expressed in S basis"""
    l = Du(lam, 1)
    if pde == 'NSE':
        return [[Du(1), Du(0)], [Du(0), Du(1)]]
    t = Du(C.of(0) - IU * C.of(H)) * l.inv()
    M = [[t, Du(0)], [-t, Du(1)]] if vanilla else [[Du(1), t], [Du(0), -t]]
    if disc in ('2SPLIT2_MODAL', '2SPLIT2A'):
        h = Du(IU * C.of(mul(H, C.of(eps).re))) * l
        a, b = dexp(-h), dexp(h)
        M = [[M[0][0] * a, M[0][1] * b], [M[1][0] * a, M[1][1] * b]]
    return M


def basis_from_S(pde, disc, vanilla, lam, eps):
    l = Du(lam, 1)
    if pde == 'NSE':
        return [[Du(1), Du(0)], [Du(0), Du(1)]]
    t = Du(IU * C.of(2)) * l
    M = [[t, Du(0)], [Du(1), Du(1)]] if vanilla else [[Du(1), Du(1)], [Du(0), -t]]
    if disc in ('2SPLIT2_MODAL', '2SPLIT2A'):
        h = Du(IU * C.of(mul(H, C.of(eps).re))) * l
        a, b = dexp(h), dexp(-h)
        M = [[M[0][0] * a, M[0][1] * a], [M[1][0] * b, M[1][1] * b]]
    return M


def scatter(pde, disc, vanilla, q, r, lam, eps, D):
    """S-basis scattering matrix over D given samples, dual entries"""
    P = None
    for n in range(D):
        M = step_matrix(disc, n, q, r, lam, eps)
        P = M if P is None else mm(M, P)
    return mm(mm(basis_to_S(pde, disc, vanilla, lam, eps), P), basis_from_S(pde, disc, vanilla, lam, eps))


# ------------------------------------------------------------- numbers
def nexp(disc, n, q, r, lam, eps):
    """list of (M, dM/dlambda) exponents for given sample n"""
    out = []
    Z = lambda x, y, z: np.array([[x, y], [z, -x]], complex)
    if disc in CFW:
        m = len(CFW[disc])
        for k in range(m):
            h = eps * complex(float(CFW[disc][k][0]), float(CFW[disc][k][1])); kk = n * m + k
            out.append((Z(-1j * lam * h, q[kk] * h, r[kk] * h), Z(-1j * h, 0, 0)))
        return out
    A0 = Z(-1j * lam, q[3 * n], r[3 * n]); A1 = Z(0, q[3 * n + 1], r[3 * n + 1]); A2 = Z(0, q[3 * n + 2], r[3 * n + 2])
    s3 = Z(-1j, 0, 0)
    if disc == 'ES4':
        com = lambda a, b: a @ b - b @ a
        return [(eps * A0 + eps ** 3 / 24 * A2 - eps ** 3 / 12 * com(A0, A1), eps * s3 - eps ** 3 / 12 * com(s3, A1))]
    return [(eps ** 3 / 48 * A2 - eps ** 2 / 12 * A1, 0 * s3), (eps * A0, eps * s3), (eps ** 3 / 48 * A2 + eps ** 2 / 12 * A1, 0 * s3)]


def nstep(disc, n, q, r, lam, eps):
    P = np.eye(4, dtype=complex)
    for M, dM in nexp(disc, n, q, r, lam, eps):
        B = np.zeros((4, 4), complex); B[:2, :2] = M; B[2:, 2:] = M; B[2:, :2] = dM
        P = sla.expm(B) @ P
    return P        # [[S,0],[S',S]]


def nblock(M, dM):
    B = np.zeros((4, 4), complex); B[:2, :2] = M; B[2:, 2:] = M; B[2:, :2] = dM
    return B


def nbasis(pde, disc, vanilla, lam, eps):
    if pde == 'NSE':
        return np.eye(4, dtype=complex)
    t, dt = -0.5j / lam, 0.5j / lam ** 2
    M, d = (np.array([[t, 0], [-t, 1]]), np.array([[dt, 0], [-dt, 0]])) if vanilla else (np.array([[1, t], [0, -t]]), np.array([[0, dt], [0, -dt]]))
    if disc in ('2SPLIT2_MODAL', '2SPLIT2A'):
        E = np.diag([np.exp(-0.5j * lam * eps), np.exp(0.5j * lam * eps)]); dE = np.diag([-0.5j * eps, 0.5j * eps]) @ E
        M, d = M @ E, d @ E + M @ dE
    return nblock(M, d)


def nscatter(pde, disc, vanilla, q, r, lam, eps, D):
    P = np.eye(4, dtype=complex)
    for n in range(D):
        P = nstep(disc, n, q, r, lam, eps) @ P
    B = nbasis(pde, disc, vanilla, lam, eps)
    return B @ P @ np.linalg.inv(B)
