"""P13: Manakov scattering matrices and spectra."""
from pubsym import *
from cp10 import _pow2
from schemes import *
from schemes import scheme as scheme2
from specs import *
LEVEL = 'other'
TECHNIQUE = 'contract-based deductive verification: contracts of manakov_fscatter over poly_fmult3x3 (P01), of manakov_scatter_matrix, and of fnft_manakovv over the contracts of preprocessing (P22), scattering and chirp transform (P09); compiled code against the definition'
NOTE = 'Samples, step size, spectral parameters, polynomial coefficients, interval and grid symbolic; number of samples and grid points bounded. Exact reals. The compiled functions are compared with independent products of 3x3 matrix exponentials.'
SOURCES = ['fnft_manakovv.c', 'manakov_', 'misc', 'poly_', 'fft_wrapper', 'kiss_fft.c']
conj = lambda z: C(z.re, X.neg(z.im))
SLOWM = ['BO', 'CF4_2']
EPSM = Fraction(1, 2 ** 52)


def word3(n):
    """documented splitting: list of (weight, word); FTES factors are wrapped by E1, E2"""
    if n == 'FTES4_suzuki':
        f = Fr
        return [(Fr(1), [('B', f(7, 48)), ('A', f(1, 3)), ('B', f(3, 8)), ('A', f(-1, 3)), ('B', f(-1, 48)), ('A', f(1)), ('B', f(-1, 48)), ('A', f(-1, 3)), ('B', f(3, 8)), ('A', f(1, 3)), ('B', f(7, 48))])]
    if n == 'FTES4_4A': n = '2SPLIT4A'
    return scheme2(n)


def zdeg(n): return 6 if n == 'FTES4_suzuki' else MDEG[n]     # power of z of one full step of A


def mats(words, deg, A, E, one, mul_, add_, scale):
    tot = None
    for w, word in words:
        P = None
        for X_, s in word:
            M = A(s) if X_ == 'A' else E(s)
            P = M if P is None else mul_(P, M)
        P = scale(P, w)
        tot = P if tot is None else add_(tot, P)
    return tot


def exp3(s1, s2, t1, t2):
    """expm([[0,s1,s2],[t1,0,0],[t2,0,0]])"""
    d = s1 * t1 + s2 * t2                      # cube of the matrix = d times the matrix
    x = IU * cf('csqrt', d)
    s, c = cf('csin', x) / x, cf('ccos', x)
    k = (c - C.of(1)) / d
    return [[c, s1 * s, s2 * s], [t1 * s, C.of(1) + t1 * s1 * k, t1 * s2 * k], [t2 * s, t2 * s1 * k, C.of(1) + t2 * s2 * k]]


def ident3(): return [[C.of(1 if i == j else 0) for j in range(3)] for i in range(3)]


def factor3(n, q1, q2, kap, eps, k):
    """polynomial factor of sample k (dicts power of z -> C)"""
    E_ = {}
    z1, z2 = q1[k], q2[k]
    zero = z1.re is ZERO and z1.im is ZERO and z2.re is ZERO and z2.im is ZERO
    def E(s):
        if s not in E_:
            h = C(mul(const(s), eps)); m = C.of(-kap)
            M = ident3() if zero else exp3(z1 * h, z2 * h, m * conj(z1) * h, m * conj(z2) * h)
            E_[s] = [[{0: x} for x in r] for r in M]
        return E_[s]
    dz = zdeg(n)
    def A(s):
        p = s * dz; assert p.denominator == 1; p = int(p)
        lo, hi = (0, p) if p >= 0 else (-p, 0)
        return [[{lo if i == 0 else hi: C.of(1)} if i == j else {} for j in range(3)] for i in range(3)]
    def sc(P, w): return [[pscale(x, const(w)) for x in row] for row in P]
    M = mats(word3(n), dz, A, E, None, mmul, madd, sc)
    if n.startswith('FTES'):
        lo, hi = max(k - 1, 0), min(k + 1, len(q1) - 1)
        def EE(sg):
            v = []
            for q in (q1, q2):
                d1 = (q[hi] - q[lo]) * C(div(eps, const(24))); d2 = (q[hi] - q[k] - q[k] + q[lo]) * C(div(eps, const(48)))
                v.append((d1 if sg > 0 else C.of(0) - d1) + d2)
            m = C.of(-kap)
            if len(q1) == 1 or all(x.re is ZERO and x.im is ZERO for x in v): return [[{0: x} for x in r] for r in ident3()]
            return [[{0: x} for x in r] for r in exp3(v[0], v[1], m * conj(v[0]), m * conj(v[1]))]
        M = mmul(mmul(EE(1), M), EE(-1))
    return M


# ---------------------------------------------------------------- numbers
def nexp3(s1, s2, t1, t2):
    d = s1 * t1 + s2 * t2
    x = np.sqrt(d + 0j)
    s, c = (1.0, 1.0) if d == 0 else (np.sinh(x) / x, np.cosh(x))
    k = .5 + d / 24 if abs(d) < 1e-6 else (c - 1) / d
    B = np.array([[0, s1, s2], [t1, 0, 0], [t2, 0, 0]], complex)
    return np.eye(3) + s * B + k * (B @ B)


def nfactor3(n, q1, q2, kap, eps, k, z):
    z = np.asarray(z, complex); o = np.ones_like(z)
    dz = zdeg(n)
    def A(s):
        p = int(s * dz); lo, hi = (0, p) if p >= 0 else (-p, 0)
        return np.array([[z ** (lo if i == 0 else hi) if i == j else 0 * z for j in range(3)] for i in range(3)])
    def E(s):
        h = float(s) * eps
        return nexp3(q1[k] * h, q2[k] * h, -kap * np.conj(q1[k]) * h, -kap * np.conj(q2[k]) * h)[:, :, None] * o
    mm_ = lambda a, b: np.einsum('ijn,jkn->ikn', a, b)
    M = mats(word3(n), dz, A, E, None, mm_, lambda a, b: a + b, lambda P, w: float(w) * P)
    if n.startswith('FTES'):
        lo, hi = max(k - 1, 0), min(k + 1, len(q1) - 1)
        def EE(sg):
            v = [sg * (q[hi] - q[lo]) * eps / 24 + (q[hi] - 2 * q[k] + q[lo]) * eps / 48 for q in (q1, q2)]
            return nexp3(v[0], v[1], -kap * np.conj(v[0]), -kap * np.conj(v[1]))[:, :, None] * o
        M = mm_(mm_(EE(1), M), EE(-1))
    return M


def nstep3(n, q1, q2, kap, eps, lam, k):
    """slow schemes: exponential of the frozen system"""
    l = lam / 2 if n == 'CF4_2' else lam
    from scipy.linalg import expm
    return expm(eps * np.array([[-1j * l, q1[k], q2[k]], [-kap * np.conj(q1[k]), 1j * l, 0], [-kap * np.conj(q2[k]), 0, 1j * l]]))


# ---------------------------------------------------------------- jobs
def check(c):
    warm('manakovv')
    jobs = []
    for n in MDEG:
        if n == 'FTES4_4B' or n not in enum('manakov'): continue
        for kap in (1, -1):
            for D in (1, 2, 3) if MDEG[n] <= 6 or n.startswith('FTES4_4') else (1, 2):
                if n.startswith('4') and D > 2: continue
                jobs.append((fast, n, D, kap, 1, ''))
            jobs += [(fast, n, 1, kap, 0, ''), (fast, n, 2, kap, 1, 'zero'), (fast, n, 1, kap, 1, 'half'), (fast, n, 1, kap, 1, 'half2')]
    jobs.sort(key=lambda j: -MDEG[j[1]] * j[2])
    for n in SLOWM:
        for kap in (1, -1):
            for D, K in ((1, 2), (2, 1)):
                jobs += [(slow, n, D, K, kap, v) for v in (('', 'zero', 'half') if D == 1 else ('',))]
    for n in list(MDEG) + SLOWM:
        if n == 'FTES4_4B' or n not in enum('manakov'): continue
        for D, M in ((2, 2), (3, 3), (2, 1)):
            for ct_ in ('REFLECTION_COEFFICIENT', 'AB', 'BOTH'):
                for kap in ((1, -1) if ct_ == 'BOTH' else (1,)):
                    for nf in ((1, 0) if D == 2 and M == 2 else (1,)):
                        jobs.append((cont, n, D, M, ct_, kap, nf))
    c.parallel(disp, jobs)
    battery(c)


def disp(c, f, *a):
    if not c.viol: f(c, *a)


def samp(k, rng):
    k = str(k)
    if k == 'eps': return mpf(rng.uniform(0.05, 0.4))
    if k in ('T0', 'X0'): return mpf(rng.uniform(-2, -.5))
    if k in ('T1', 'X1'): return mpf(rng.uniform(.5, 2))
    if k.startswith('int:'): return mpf(rng.randrange(-3, 4))
    return mpf(rng.uniform(-1, 1))


def qarr(nm, n, mode, which):
    z = C.of(0)
    init = [cvar('%s[%d]' % (nm, k)) for k in range(n)]
    if mode == 'zero': init[0] = z
    if mode == 'half' and which == 0 or mode == 'half2' and which == 1: init = [z] * n
    return Arr(nm, n, init=init), init


def nonzero(*qs):
    def pre(e, st, cs):
        gt(st, var('eps'), ZERO)
        for q in qs:
            for z in q:
                if z.re is not ZERO: gt(st, X.fn('cabs', z.re, z.im), const(EPSM))
    return pre


def fcase(n, D, kap, withW, q, p, eps='eps', cap=None):
    N2 = 1
    while N2 < D: N2 *= 2
    cap = 9 * (MDEG[n] + 1) * N2
    return Case('fnft__manakov_fscatter', [U(D), q, p, I(kap), F(eps), Arr('res', cap, role='out') if eps == 'eps' else RawArr('res', np.full(cap, 1e77 + 0j), 'out'), Arr('d', 1, 'u', 'out'),
                                           Arr('W', 1, 'i', 'io', init=[0]) if withW else Null(), I(enum('manakov')[n])])


def fast(c, n, D, kap, withW, mode):
    q, qs = qarr('q', D, mode, 0); p, ps = qarr('p', D, mode, 1)
    cs = fcase(n, D, kap, withW, q, p)
    nm = 'manakov_fscatter %s D=%d kappa=%d%s %s' % (n, D, kap, ' W' if withW else '', mode)
    e, R = cs.sym(c, contracts=dict(CSINC, **FMULT), pre=nonzero(qs, ps), generic='tiny', max_steps=20000000)
    c.safety_fail(nm, cs, e)
    deg = MDEG[n]; eps = var('eps')
    fac = [[[topoly(x, deg) for x in row] for row in factor3(n, qs, ps, kap, eps, k)] for k in range(D)]
    fac.reverse()
    spec = prod_polymats(fac, 3)
    L = D * deg + 1; good = 0
    for st in R:
        if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): continue
        good += 1
        dv = e.getu(st, cs.ptr['d'])
        if not c.truth_ret(nm + ' degree', cs, dv == L - 1, dv): continue
        s = ONE
        if withW:
            Wv = e.geti(st, cs.ptr['W'])
            s = ONE if Wv == 0 or isinstance(Wv, int) else var('2^-' + list(Wv.d)[0][0])
        it = []
        for i in range(3):
            for j in range(3):
                for k in range(L):
                    z = spec[i][j][k]
                    if s is not ONE: z = C(mul(z.re, s), mul(z.im, s))
                    it += cpairs('res', (i * 3 + j) * L + k, e.getc(st, cs.ptr['res'], (i * 3 + j) * L + k), z)
        c.eq(nm, None if withW else cs, st, it, sampler=samp, scope='bounded')
        leak = [o.name for o in st.live_heap()]
        c.truth(nm + ' releases its memory', not leak, scope='bounded') or c.fail_concrete(nm + ' memory', None, None, str(leak[:3]))
    if not good: c.record(nm, 'undecided', 'engine', 'no successful path')


def scase(n, D, K, kap, q, p, l, eps='eps'):
    return Case('fnft__manakov_scatter_matrix', [U(D * MUPS.get(n, 1)), q, p, F(eps), U(K), l, I(kap), Arr('res', 9 * K, role='out') if eps == 'eps' else RawArr('res', np.full(9 * K, 1e77 + 0j), 'out'), I(enum('manakov')[n])])


def ustep(n, q1, q2, kap, lam):
    h = C(var('eps'))
    if n == 'CF4_2': lam = lam * C.of(const(Fraction(1, 2)))
    ei, eo = cexp(IU * lam * h), cexp(C.of(0) - IU * lam * h)
    Z_ = C.of(0)
    if all(z.re is ZERO and z.im is ZERO for z in (q1, q2)): return [[eo, Z_, Z_], [Z_, ei, Z_], [Z_, Z_, ei]]
    nq = q1 * conj(q1) + q2 * conj(q2); k = C.of(kap); m = C.of(-kap)
    x = cf('csqrt', lam * lam + k * nq)
    s = cf('csin', x * h) / x; co = cf('ccos', x * h)
    r1, r2 = m * conj(q1), m * conj(q2)
    g = (co + IU * lam * s - ei) / (m * nq)
    return [[co - IU * lam * s, q1 * s, q2 * s], [r1 * s, ei + r1 * q1 * g, r1 * q2 * g], [r2 * s, r2 * q1 * g, ei + r2 * q2 * g]]


def slow(c, n, D, K, kap, mode):
    N = D * MUPS.get(n, 1)
    q, qs = qarr('q', N, mode, 0); p, ps = qarr('p', N, mode, 1)
    cs = scase(n, D, K, kap, q, p, Arr('l', K))
    nm = 'manakov_scatter_matrix %s D=%d K=%d kappa=%d %s' % (n, D, K, kap, mode)
    e, R = cs.sym(c, contracts=CSINC, generic=True, pre=nonzero(qs, ps))
    c.safety_fail(nm, cs, e)
    good = 0
    for st in R:
        if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): continue
        good += 1; it = []
        for k in range(K):
            P = None
            for j in range(N):
                S = ustep(n, qs[j], ps[j], kap, cvar('l[%d]' % k))
                P = S if P is None else mm(S, P)
            for i in range(9): it += cpairs('res', 9 * k + i, e.getc(st, cs.ptr['res'], 9 * k + i), P[i // 3][i % 3])
        c.eq(nm, cs, st, it, sampler=samp, scope='bounded')
    if not good: c.record(nm, 'undecided', 'engine', 'no successful path')


def msmat_contract(e, st, a):
    """manakov_scatter_matrix(D,q1,q2,eps,K,lambda,kappa,result,disc) [P13]"""
    D, q, r, eps, K, lam, kappa, res, disc = a
    qs = carr(e, st, q, D) + carr(e, st, r, D); need(e, st, qs, 'scatter_matrix')
    ls = carr(e, st, lam, K); need(e, st, ls, 'scatter_matrix')
    tag = tagof(qs)
    for k in range(K):
        for i in range(9): e.putc(st, res, 9 * k + i, X.cvar('S%s_%d_%d' % (tag, k, i)))
    st.ghost['slow'] = st.ghost.get('slow', ()) + ((tag, D, eps, kappa, disc, ids(qs), tuple(ls)),)
    return 0


MCON = {'fnft__manakov_discretization_preprocess_signal': prep_contract('manakov'), 'fnft__poly_chirpz': chirpz_contract, 'fnft__manakov_scatter_matrix': msmat_contract, 'fnft__manakov_fscatter': fscatter_contract('manakov', 9)}
CLEN = {'REFLECTION_COEFFICIENT': 2, 'AB': 3, 'BOTH': 5}


def mspec(n, D, M, eps, T0, T1, xi, ct_, nf, tag):
    h = const(Fraction(1, 2)); u = MUPS.get(n, 1)
    L, Rb = sub(T0, mul(h, eps)), add(T1, mul(h, eps))
    if u == 2: L, Rb = add(L, mul(h, eps)), add(Rb, mul(h, eps))
    fr = ZERO if n in SLOWM else mul(const(Fraction(-7 * D, 3) if n == 'FTES4_suzuki' else -D), eps)
    pr, pa, pb = mul(const(-2), Rb), add(fr, sub(Rb, L)), sub(sub(fr, Rb), L)
    r1, r2, A, B1, B2 = [], [], [], [], []
    for k in range(M):
        if n not in SLOWM:
            deg = MDEG[n] * u * D
            z = cexp(IU * C(mul(xi[k], mul(eps, const(Fraction(2, zdeg(n) * u))))))
            H = []
            for ent in (0, 3, 6):
                s = C.of(0)
                for j in range(deg + 1): s = s * z + X.cvar('H%s_%d_%d' % (tag, ent, j))
                H.append(s)
            sc = _pow2('W' + tag) if nf else ONE
        else:
            H = [X.cvar('S%s_%d_%d' % (tag, k, i)) for i in (0, 3, 6)]; sc = ONE
        ph = lambda p: cexp(IU * C(mul(xi[k], p)))
        r1.append(H[1] * ph(pr) / H[0]); r2.append(H[2] * ph(pr) / H[0])
        A.append(H[0] * ph(pa) * C(sc)); B1.append(H[1] * ph(pb) * C(sc)); B2.append(H[2] * ph(pb) * C(sc))
    return {'REFLECTION_COEFFICIENT': r1 + r2, 'AB': A + B1 + B2, 'BOTH': r1 + r2 + A + B1 + B2}[ct_]


def cont(c, n, D, M, ct_, kap, nf):
    T0, T1, X0, X1 = (var(x) for x in ('T0', 'T1', 'X0', 'X1'))
    m = CLEN[ct_]
    cs = Case('fnft_manakovv', [U(D), Arr('q', D), Arr('p', D), Arr('T', 2, 'd', init=[T0, T1]), U(M), Arr('cs', m * M, role='out'), Arr('XI', 2, 'd', init=[X0, X1]), Null(), Null(), Null(), I(kap),
                                Opts('manakovv', discretization=n, contspec_type=ct_, normalization_flag=nf)])
    nm = 'fnft_manakovv contspec %s D=%d M=%d %s kappa=%d norm=%d' % (n, D, M, ct_, kap, nf)
    def pre(e, st, cs): gt(st, T1, T0); gt(st, X1, X0)
    e, R = cs.sym(c, contracts=MCON, pre=pre)
    c.safety_fail(nm, cs, e)
    eps = div(sub(T1, T0), const(D - 1)); dxi = div(sub(X1, X0), const(M - 1)) if M > 1 else ZERO
    xi = [add(X0, mul(const(k), dxi)) for k in range(M)]
    good = 0; u = MUPS.get(n, 1); v = enum('manakov')[n]
    for st in R:
        if st.retval != 0 and abs(sret(st.retval)) == 3 and any(p[0] == 'f' and set(p[1]) == {'='} for p in st.path): continue
        if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): continue
        good += 1; g = st.ghost; ok, why = True, ''
        qid = ids([cvar('q[%d]' % k) for k in range(D)])
        for (ds, e2, k2, disc, DD, q) in g.get('prep', ())[:1]:
            if disc != v or DD != D or ds != D or q != qid: ok, why = False, 'preprocessing called with other data'
            c.eq(nm + ': step size handed to preprocessing', None, st, [(None, e2, eps)], scope='bounded', sampler=samp)
        P = ids([X.cvar('%s%d_%d' % (a, D, k)) for a in 'qr' for k in range(D * u)])
        s32 = lambda x: x - (1 << 32) if isinstance(x, int) and x >= 1 << 31 else x
        for x in g.get('fsc', ()):
            if x[1] != D * u or x[6] != P or x[5] != v or s32(x[3]) != kap: ok, why = False, 'fast scattering called with other samples, sign or scheme'
            c.eq(nm + ': step size handed to scattering', None, st, [(None, x[2], eps)], scope='bounded', sampler=samp)
        for x in g.get('slow', ()):
            if x[1] != D * u or x[5] != P or x[4] != v or s32(x[3]) != kap or len(x[6]) != M: ok, why = False, 'scattering called with other samples, sign or scheme'
            c.eq(nm + ': step size handed to scattering', None, st, [(None, x[2], eps)], scope='bounded', sampler=samp)
            c.eq(nm + ': grid handed to scattering', None, st, [y for k in range(M) for y in ((None, x[6][k].re, xi[k]), (None, x[6][k].im, ZERO))], scope='bounded', sampler=samp)
        c.truth(nm + ': inner calls', ok, scope='bounded') or c.fail_concrete(nm + ': inner calls', None, None, why)
        want = mspec(n, D, M, eps, T0, T1, xi, ct_, scaled(st, 'q%d' % D), 'q%d' % D)
        it = []
        for k in range(m * M): it += cpairs('cs', k, e.getc(st, cs.ptr['cs'], k), want[k])
        c.eq(nm, None, st, it, scope='bounded', sampler=samp)
        leak = [o.name for o in st.live_heap()]
        c.truth(nm + ' releases its memory', not leak, scope='bounded') or c.fail_concrete(nm + ' memory', None, None, str(leak[:3]))
    if not good: c.record(nm, 'undecided', 'engine', 'no successful path')


# ------------------------------------------------------------------ execution
def signals(rng, D, typ):
    cr = lambda: rng.normal(size=D) + 1j * rng.normal(size=D)
    q, p = cr(), cr()
    if typ == 1: q[0] = p[0] = 0
    if typ == 2: p[:] = 0
    if typ == 3: q[D // 2:] = 0; p[:D // 2] = 0
    if typ == 4: q *= 2.5; p *= 2.5
    if typ == 5: q[:] = q[0]; p[:] = 1j * q[0]
    return q, p


def battery(c):
    rng = np.random.default_rng(c.seed + 13)
    items = []
    E = enum('manakov')
    for n in MDEG:
        if n == 'FTES4_4B' or n not in E: continue
        for D in (1, 2, 4, 6, 16):
            for kap in (1, -1):
                for typ in range(6):
                    items.append(bfast(n, D, kap, typ, rng))
    for n in SLOWM:
        for D in (1, 3, 8, 40):
            for kap in (1, -1):
                for typ in range(6): items.append(bslow(n, D, kap, typ, rng))
    for n in [x for x in list(MDEG) + SLOWM if x != 'FTES4_4B' and x in E]:
        for kap in (1, -1):
            for ct_ in CLEN:
                for nf in (0, 1):
                    for typ in range(6): items.append(bpub(n, kap, ct_, nf, typ, rng))
    c.battery([x for x in items if x])


def bfast(n, D, kap, typ, rng):
    eps = (.13, .31, .07, .2, .11, .4)[typ]; q, p = signals(rng, D, typ); W = typ != 0
    cs = fcase(n, D, kap, W, RawArr('q', q), RawArr('p', p), eps)
    deg = MDEG[n]; L = D * deg + 1
    def judge(o):
        if o['ret'] != 0: return 'returned %d' % o['ret']
        if int(o['d'][0]) != L - 1: return 'degree %d instead of %d' % (o['d'][0], L - 1)
        if not o['guards']: return 'memory outside the buffers or an input was modified'
        z = np.exp(2j * np.pi * np.arange(L) / L)
        T = None
        for k in range(D):
            M = nfactor3(n, q, p, kap, eps, k, z)
            T = M if T is None else np.einsum('ijn,jkn->ikn', M, T)
        co = (np.fft.fft(T, axis=2) / L)[:, :, ::-1]
        got = o['res'][:9 * L].reshape(3, 3, L) * 2.0 ** (int(o['W'][0]) if W else 0)
        err = np.max(np.abs(got - co)) / np.max(np.abs(co))
        if not err < 1e-9:
            k = np.unravel_index(np.argmax(np.nan_to_num(np.abs(got - co), nan=np.inf)), co.shape)
            return 'entry (%d,%d) coefficient %d is %s, product of the documented factors gives %s' % (k[0], k[1], k[2], got[k], co[k])
    return 'manakov_fscatter %s D=%d kappa=%d set %d executed' % (n, D, kap, typ), cs, judge, dict(discretization=n, eps=eps, q1=[str(x) for x in q], q2=[str(x) for x in p])


def bslow(n, D, kap, typ, rng):
    N = D * MUPS.get(n, 1); eps = (.13, .31, .07, .2, .11, .4)[typ]; q, p = signals(rng, N, typ)
    lam = np.array([.7 + .3j, -1.3, .2 - .4j, 0]) + rng.normal(size=4) * .1 * (np.arange(4) < 3)
    cs = scase(n, D, 4, kap, RawArr('q', q), RawArr('p', p), RawArr('l', lam), eps)
    def judge(o):
        if o['ret'] != 0: return 'returned %d' % o['ret']
        if not o['guards']: return 'memory outside the buffers or an input was modified'
        for k in range(4):
            S = np.eye(3)
            for j in range(N): S = nstep3(n, q, p, kap, eps, lam[k], j) @ S
            G = o['res'].reshape(4, 3, 3)[k]
            if not np.abs(G - S).max() <= 1e-9 * np.abs(S).max(): return 'lambda=%s: %s instead of %s' % (lam[k], G.tolist(), S.tolist())
    return 'manakov_scatter_matrix %s D=%d kappa=%d set %d executed' % (n, D, kap, typ), cs, judge, dict(discretization=n, eps=eps, q1=[str(x) for x in q], q2=[str(x) for x in p], lam=[str(x) for x in lam])


def nman(n, q, p, T, kap, lam, ds=None):
    """(rho1, rho2, a, b1, b2) of the discretized problem"""
    D = len(q); eps = (T[1] - T[0]) / (D - 1); u = MUPS.get(n, 1)
    if u == 2:
        s3 = np.sqrt(3) / 6
        def two(x):
            a, b = nresample(x, eps, (.5 - s3) * eps), nresample(x, eps, (.5 + s3) * eps)
            return np.stack([(.25 + s3) * a + (.25 - s3) * b, (.25 - s3) * a + (.25 + s3) * b], 1).reshape(-1)
        q, p = two(q), two(p)
    if n in SLOWM:
        P, Ls = nscaled(np.stack([nstep3(n, q, p, kap, eps, l, k) for l in lam]) for k in range(len(q)))
        fr = 0.0
    else:
        z = np.exp(2j * lam * eps / (zdeg(n) * u))
        P, Ls = nscaled(np.moveaxis(nfactor3(n, q, p, kap, eps, k, z), 2, 0) for k in range(len(q)))
        fr = -eps * D * (7 / 3 if n == 'FTES4_suzuki' else 1)
    L, R = T[0] - eps / 2, T[1] + eps / 2
    if u == 2: L, R = L + eps / 2, R + eps / 2
    h, g1, g2 = P[:, 0, 0], P[:, 1, 0], P[:, 2, 0]
    er, ea, eb = np.exp(-2j * lam * R), np.exp(Ls + 1j * lam * (fr + R - L)), np.exp(Ls + 1j * lam * (fr - R - L))
    return g1 / h * er, g2 / h * er, h * ea, g1 * eb, g2 * eb


def bpub(n, kap, ct_, nf, typ, rng):
    D, M = [(2, 2), (3, 7), (8, 3), (13, 1), (64, 5), (96, 9)][typ]
    if typ >= 4 and MDEG.get(n, 0) > 8: D = 24
    T = [(-1.0, 1.5), (0.0, 2.0), (3.0, 5.0), (-7.0, -2.0), (-10.0, 10.0), (-9.0, 12.0)][typ]
    XI = [(-1.0, 2.0), (0.5, 0.75), (-3.0, -1.0), (-0.2, 0.9), (-1.5, 1.5), (-2.0, 0.5)][typ]
    q, p = signals(rng, D, typ if typ < 4 else 0)
    if typ >= 4:
        t = np.linspace(*T, D); q = 1.1 / np.cosh(t) * np.exp(.7j * t); p = .8 / np.cosh(t - .5) * np.exp(-.2j * t) + .05 * p
    kw = dict(discretization=n, contspec_type=ct_, normalization_flag=nf)
    cs = Case('fnft_manakovv', pub_case('manakovv', D, [RawArr('q', q), RawArr('p', p)], T, M, XI, 0, None, None, [I(kap)], True, CLEN[ct_] * M, **kw))
    lam = XI[0] + (XI[1] - XI[0]) / max(M - 1, 1) * np.arange(M)
    def judge(o):
        if o['ret'] != 0: return 'returned %d' % o['ret']
        if not o['guards']: return 'memory outside the buffers or an input was modified'
        v = nman(n, q, p, T, kap, lam)
        w = {'REFLECTION_COEFFICIENT': v[:2], 'AB': v[2:], 'BOTH': v}[ct_]
        big = max(np.abs(x).max() for x in v[2:])
        for k, x in enumerate(w):
            g = o['cs'][k * M:(k + 1) * M]
            isr = ct_ != 'AB' and k < 2
            cond = np.abs(v[3] / v[2]).max() + np.abs(v[4] / v[2]).max() + 1
            tol = 1e-7 * (cond ** 2 * big / np.abs(v[2]).min() if isr else big)
            i = int(np.argmax(np.where(np.isfinite(g), np.abs(g - x), np.inf)))
            if not abs(g[i] - x[i]) <= tol: return '%s at xi=%s is %s, discretized problem gives %s' % (['rho1', 'rho2', 'a', 'b1', 'b2'][k + 2 * (ct_ == 'AB')], lam[i], g[i], x[i])
    return 'fnft_manakovv %s kappa=%d %s norm=%d set %d executed' % (n, kap, ct_, nf, typ), cs, judge, dict(discretization=n, kappa=kap, T=T, XI=XI, q1=[str(x) for x in q[:64]], q2=[str(x) for x in p[:64]])
