"""Splitting schemes, written from the literature as compositions of exponentials, independent of the code.
A factor is a list of (weight, word); a word is a list of ('A'|'B', fraction). e^{A s} = diag(1, z^(s*deg)) after normalisation
by exp(-i lambda eps), e^{B s} = expm(s*eps*[[0,q],[r,0]])."""
from fractions import Fraction as Fr
import numpy as np
from expr import C, const, var, cf, cexp, ONE, ZERO, mul
from common import DEG

F7 = Fr(2874587633249303, 2 ** 50)


def strang(n, a, b):
    """(a^{1/2n} b^{1/n} a^{1/n} ... b^{1/n} a^{1/2n})"""
    w = [(a, Fr(1, 2 * n))]
    for k in range(n):
        w.append((b, Fr(1, n)))
        w.append((a, Fr(1, n) if k < n - 1 else Fr(1, 2 * n)))
    return w


def alt(n, a, b):
    """a^{1/n} b^{2/n} a^{2/n} ... b^{1/n}   (n odd)"""
    w = [(a, Fr(1, n))]
    k = 0
    x = b
    for _ in range(n - 1):
        w.append((x, Fr(2, n)))
        x = a if x == b else b
    w.append((x, Fr(1, n)))
    return w


def scheme(n, A='A', B='B'):
    n = n.replace('4SPLIT', '2SPLIT')
    if n.endswith('B') and n[6] in '345678':
        return scheme(n[:-1] + 'A', 'B', 'A')
    one = lambda *w: [(Fr(1), list(w))]
    if n == '2SPLIT1A':
        return one((A, Fr(1)), (B, Fr(1)))
    if n in ('2SPLIT1B', '2SPLIT2A'):
        return one((B, Fr(1)), (A, Fr(1)))
    if n == '2SPLIT2B':
        return one((B, Fr(1, 2)), (A, Fr(1)), (B, Fr(1, 2)))
    if n == '2SPLIT2S':
        return [(Fr(1, 2), [(A, Fr(1)), (B, Fr(1))]), (Fr(1, 2), [(B, Fr(1)), (A, Fr(1))])]
    if n == '2SPLIT3S':
        h = Fr(1, 2)
        return [(Fr(2, 3), [(A, h), (B, Fr(1)), (A, h)]), (Fr(2, 3), [(B, h), (A, Fr(1)), (B, h)]),
                (Fr(-1, 6), [(A, Fr(1)), (B, Fr(1))]), (Fr(-1, 6), [(B, Fr(1)), (A, Fr(1))])]
    if n == '2SPLIT3A':
        return [(Fr(9, 8), alt(3, A, B)), (Fr(-1, 8), [(A, Fr(1)), (B, Fr(1))])]
    if n == '2SPLIT4A':
        return [(Fr(-1, 3), strang(1, A, B)), (Fr(4, 3), strang(2, A, B))]
    if n == '2SPLIT5A':
        return [(Fr(1, 192), alt(1, A, B)), (Fr(-81, 128), alt(3, A, B)), (Fr(625, 384), alt(5, A, B))]
    if n == '2SPLIT6A':
        return [(Fr(1, 24), strang(1, A, B)), (Fr(-16, 15), strang(2, A, B)), (Fr(81, 40), strang(3, A, B))]
    if n == '2SPLIT7A':
        return [(Fr(-1, 9216), alt(1, A, B)), (Fr(729, 5120), alt(3, A, B)), (Fr(-15625, 9216), alt(5, A, B)), (F7, alt(7, A, B))]
    if n == '2SPLIT8A':
        return [(Fr(-1, 360), strang(1, A, B)), (Fr(16, 45), strang(2, A, B)), (Fr(-729, 280), strang(3, A, B)), (Fr(1024, 315), strang(4, A, B))]
    raise KeyError(n)


# ---------------------------------------------------------------- symbolic polynomials (dict power -> C)
def padd(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r[k] + v if k in r else v
    return r


def pmul(a, b):
    r = {}
    for i, x in a.items():
        for j, y in b.items():
            t = x * y
            r[i + j] = r[i + j] + t if i + j in r else t
    return r


def pscale(a, s):
    return {k: C(mul(v.re, s), mul(v.im, s)) for k, v in a.items()}


def mmul(A, B):
    m = len(A)
    R = []
    for i in range(m):
        row = []
        for j in range(m):
            t = {}
            for k in range(m):
                if A[i][k] and B[k][j]:
                    t = padd(t, pmul(A[i][k], B[k][j]))
            row.append(t)
        R.append(row)
    return R


def madd(A, B):
    return [[padd(x, y) for x, y in zip(a, b)] for a, b in zip(A, B)]


def expB2(q, r, h):
    """expm([[0,q],[r,0]]*h) for symbols q, r and real term h"""
    D = C(h) * cf('csqrt', -(q * r))
    s = cf('csin', D) / D * C(h)
    c = cf('ccos', D)
    return [[c, q * s], [r * s, c]]


def factor2(n, q, r, eps, deg, expB=expB2):
    """2x2 polynomial factor: entries dict(power of z -> C)"""
    if n.startswith('4SPLIT'):
        eps = mul(const(Fr(1, 2)), eps)     # two half-step samples per step
    if n == '2SPLIT2_MODAL':
        Q, R = C(eps) * q, C(eps) * r
        s = C.of(1) / cf('csqrt', C.of(1) - Q * R)
        return [[{0: s}, {1: s * Q}], [{0: s * R}, {1: s}]]
    cache = {}
    def E(h):
        if h not in cache:
            cache[h] = expB(q, r, mul(const(h), eps))
        return cache[h]
    tot = None
    for w, word in scheme(n):
        P = None
        for X, s in word:
            if X == 'A':
                assert (s * deg).denominator == 1
                M = [[{0: C.of(1)}, {}], [{}, {int(s * deg): C.of(1)}]]
            else:
                M = [[{0: x} for x in row] for row in E(s)]
            P = M if P is None else mmul(P, M)
        P = [[pscale(x, const(w)) for x in row] for row in P]
        tot = P if tot is None else madd(tot, P)
    return tot


def topoly(d, deg):
    """dense list, highest power first"""
    assert all(0 <= k <= deg for k in d), (sorted(d), deg)
    return [d.get(deg - k, C.of(0)) for k in range(deg + 1)]


# ---------------------------------------------------------------- numbers
def nexpB2(q, r, h):
    D = h * np.sqrt(-(q * r) + 0j)
    s = h * np.where(np.abs(D) < 1e-8, 1 - D * D / 6, np.sin(D) / np.where(D == 0, 1, D))
    c = np.cos(D)
    return np.array([[c, q * s], [r * s, c]])


def nfactor2(n, q, r, eps, deg, z):
    """factor evaluated at an array z: array (2,2,len z)"""
    z = np.asarray(z)
    if n.startswith('4SPLIT'):
        eps = eps / 2
    if n == '2SPLIT2_MODAL':
        Q, R = eps * q, eps * r
        s = 1 / np.sqrt(1 - Q * R + 0j)
        o = np.ones_like(z)
        return s * np.array([[o, Q * z], [R * o, z]])
    tot = 0
    for w, word in scheme(n):
        P = np.array([[np.ones_like(z), 0 * z], [0 * z, np.ones_like(z)]])
        for X, s in word:
            if X == 'A':
                M = np.array([[np.ones_like(z), 0 * z], [0 * z, z ** int(s * deg)]])
            else:
                M = nexpB2(q, r, float(s) * eps)[:, :, None] * np.ones_like(z)
            P = np.einsum('ijn,jkn->ikn', P, M)
        tot = tot + float(w) * P
    return tot


def ntransfer2(n, q, r, eps, z):
    """ordered product over the samples, last sample leftmost; array (2,2,len z)"""
    deg = DEG[n]
    P = None
    for k in range(len(q)):
        M = nfactor2(n, q[k], r[k], eps, deg, z)
        P = M if P is None else np.einsum('ijn,jkn->ikn', M, P)
    return P
