"""Contracts of callees, used at call sites in place of the callee's body. Every contract here is itself discharged
under the property named in its docstring."""
from common import *
from engine import Ptr, Alts, PathEnd, Unsupported, IP
import replay


def pure_csinc(e, st, a):
    """misc_CSINC(x) = sin(x)/x [P09/P08: contract of misc_CSINC is verified there]. At x=0 the value is 1."""
    z = C(a[0], a[1])
    if z.re is ZERO and z.im is ZERO:
        return (ONE, ZERO)
    r = cf('csin', z) / z
    return (r.re, r.im)


def pure_csinc_der(e, st, a):
    """misc_CSINC_derivative(x) = (cos(x) - sin(x)/x)/x"""
    z = C(a[0], a[1])
    if z.re is ZERO and z.im is ZERO:
        return (ZERO, ZERO)
    r = (cf('ccos', z) - cf('csin', z) / z) / z
    return (r.re, r.im)


CSINC = {'fnft__misc_CSINC': pure_csinc, 'misc_CSINC': pure_csinc, 'fnft__misc_CSINC_derivative': pure_csinc_der, 'misc_CSINC_derivative': pure_csinc_der}


def omega(n, k, sign):
    """exp(sign*2*pi*i*k/n)"""
    k %= n
    if k == 0:
        return C.of(1)
    return cexp(IU * C(mul(const(Fraction(2 * k * sign, n)), var('pi'))))


def fft_alloc(e, st, a):
    """kiss_fft_alloc(n, inverse, NULL, NULL): fresh plan or NULL"""
    n = a[0]
    inv = a[1]
    from engine import _malloc
    r = _malloc(e, st, [256])
    l = r.l if isinstance(r, Alts) else [(st, r)]
    for s, p in l:
        if isinstance(p, Ptr):
            o = s.wobj(p.o)
            o.name = 'fft plan (%s,%s)' % (n, inv)
            s.ghost[('plan', p.o)] = (n, inv)
    return r


def fft_exec(e, st, a):
    """kiss_fft(plan, in, out): out_k = sum_j in_j exp(-+2 pi i jk/n), n from the plan"""
    p, fi, fo = a
    if not isinstance(p, Ptr) or not st.mem[p.o].alive or ('plan', p.o) not in st.ghost:
        e.ob('valid-access', False, st, 'FFT with an invalid plan'); raise PathEnd('fft')
    n, inv = st.ghost[('plan', p.o)]
    if not isinstance(n, int):
        raise Unsupported('symbolic FFT length')
    sg = 1 if inv else -1
    if isinstance(fi, Ptr):
        e.addr(st, fi, 16 * n, 'FFT input')
    if isinstance(fo, Ptr):
        e.addr(st, fo, 16 * n, 'FFT output')
    x = []
    for k in range(n):
        x.append(C(e.load(st, Ptr(fi.o, fi.off + 16 * k), DBL), e.load(st, Ptr(fi.o, fi.off + 16 * k + 8), DBL)))
    if any(z.re is X.UNDEF or z.im is X.UNDEF for z in x):
        e.ob('initialised', False, st, 'FFT of uninitialised data'); raise PathEnd('uninit')
    nz = [(j, z) for j, z in enumerate(x) if not (z.re is ZERO and z.im is ZERO)]
    for k in range(n):
        s = C.of(0)
        for j, z in nz:
            s = s + z * omega(n, j * k, sg)
        e.putc(st, fo, k, s)
    return None


from ir import DBL
import expr as X
from expr import *
FFT = {'kiss_fft_alloc': fft_alloc, 'kiss_fft': fft_exec}


def plan_of(e, st, n, inv):
    p = fft_alloc(e, st, [n, inv])
    return p


def polymul(a, b):
    n = len(a) + len(b) - 1
    r = [None] * n
    for i, x in enumerate(a):
        if x.re is ZERO and x.im is ZERO:
            continue
        for j, y in enumerate(b):
            if y.re is ZERO and y.im is ZERO:
                continue
            t = x * y
            r[i + j] = t if r[i + j] is None else r[i + j] + t
    return [C.of(0) if x is None else x for x in r]


def polyadd(a, b):
    return [x + y for x, y in zip(a, b)]


def matmul_poly(A, B, m):
    R = []
    for i in range(m):
        row = []
        for j in range(m):
            s = None
            for k in range(m):
                t = polymul(A[i][k], B[k][j])
                s = t if s is None else polyadd(s, t)
            row.append(s)
        R.append(row)
    return R


def prod_polymats(l, m):
    r = l[0]
    for x in l[1:]:
        r = matmul_poly(r, x, m)
    return r


def fmult_contract(m, log=None):
    """poly_fmult{2x2,3x3}(deg*, n, p, result, W*): result * 2^W = ordered product p_0 ... p_{n-1}, *deg = n*deg [P01].
    p has capacity m*m*(deg+1)*nextpow2(n); the same for result. p is destroyed."""
    def f(e, st, a):
        dp, n, p, res, W = a
        deg = e.load(st, dp, I64)
        if not isinstance(n, int) or not isinstance(deg, int):
            raise Unsupported('symbolic polynomial sizes')
        N2 = 1
        while N2 < n:
            N2 *= 2
        tot = m * m * (deg + 1) * N2
        e.addr(st, p, 16 * tot, 'poly_fmult input')
        mats = []
        for i in range(n):
            M = []
            for r in range(m):
                row = []
                for cc in range(m):
                    base = ((r * m + cc) * n + i) * (deg + 1)
                    row.append([e.getc(st, p, base + k) for k in range(deg + 1)])
                M.append(row)
            mats.append(M)
        if any(z.re is X.UNDEF or z.im is X.UNDEF for M in mats for r in M for x in r for z in x):
            e.ob('initialised', False, st, 'poly_fmult of uninitialised coefficients'); raise PathEnd('uninit')
        if log is not None:
            log.append((deg, n, mats))
        R = prod_polymats(mats, m)
        need = m * m * (n * deg + 1)
        e.addr(st, res, 16 * max(need, 1), 'poly_fmult result')
        s = ONE
        if W != 0:
            w = e.freshint(st, 'W', -1000, 1000)
            s = var('2^-' + list(w.d)[0][0])
            e.store(st, W, w, I32)
        L = n * deg + 1
        for r in range(m):
            for cc in range(m):
                for k in range(L):
                    z = R[r][cc][k]
                    e.putc(st, res, (r * m + cc) * L + k, C(mul(z.re, s), mul(z.im, s)) if s is not ONE else z)
        e.store(st, dp, n * deg, I64)
        return 0
    return f


from ir import I64, I32
FMULT = {'fnft__poly_fmult2x2': fmult_contract(2), 'fnft__poly_fmult3x3': fmult_contract(3)}
