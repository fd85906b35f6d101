"""P16: the inverse transform reproduces the prescribed spectrum."""
from pubsym import *
from contracts import FFT, omega
from api import *
from cp10 import gt, need
from cp09 import NP
import itertools
LEVEL = 'other'
TECHNIQUE = 'contract-based deductive verification of fnft_nsev_inverse over the contracts of layer peeling (P15), spectral factorization and FFT (P09): transfer matrix handed to the layer peeling, Darboux update against the determinant formula; compiled inversions judged by the discretized forward problem'
NOTE = 'Symbolic instances: D = 2, M = 2 and 4, up to two bound states (bounded), spectrum, grid, interval and bound states symbolic. Spectral factorization is assumed in the symbolic part and decided by the compiled inversions (sizes up to 128).'
SOURCES = ['fnft_nsev_inverse', 'nse_finvscatter', 'poly_specfact', 'nse_disc', 'akns_disc', 'nse_scatter', 'akns_scatter', 'poly_fmult', 'misc', 'fft_wrapper', 'kiss_fft.c', 'fnft_nsev.c', 'nse_fscatter', 'akns_fscatter']
NS = ('2SPLIT2A', '2SPLIT2_MODAL')
KNOWN_SEED = 'fnft_nsev_inverse USE_SEED_POTENTIAL_INSTEAD with RESIDUES leaves out the contribution of the seed to a_prime'


def check(c):
    warm('nsev', 'nsev_inverse')
    J = [(sol, K, ds, met, sg) for K in (1, 2) for ds in ('NORMING_CONSTANTS', 'RESIDUES') for met, sg in (('DEFAULT', '+'), ('DEFAULT', '-'), ('DEFAULT', '0'), ('USE_SEED_POTENTIAL_INSTEAD', '+')) if not (K == 2 and sg == '0')]
    J += [(tm, n, kap, M, t, 0) for n in NS for kap in (1, -1) for M, t in ((2, 'REFLECTION_COEFFICIENT'), (4, 'REFLECTION_COEFFICIENT'), (2, 'B_OF_XI'), (4, 'B_OF_XI'), (2, 'B_OF_TAU'))]
    J += [(tm, n, 1, M, t, 1) for n in NS for M, t in ((2, 'REFLECTION_COEFFICIENT'), (4, 'REFLECTION_COEFFICIENT'), (2, 'B_OF_XI'), (2, 'B_OF_TAU'))]
    J += [(grid, n, M) for n in NS for M in (2, 4, 6, 8)]
    c.parallel(disp, J)
    battery(c)


def disp(c, f, *a):
    if c.viol: return
    f(c, *a)


def samp(k, rng):
    if '.re' in k or k.startswith('x'): return mpf(rng.uniform(-.9, .9))
    return mpf(rng.uniform(.2, .9))


# ------------------------------------------------------------------ symbolic contracts
HALF = lambda: C(const(Fraction(1, 2)))


def sstep(q, l, h):
    """exact propagator of a constant potential over h"""
    ks = -(C(X.add(mul(q.re, q.re), mul(q.im, q.im)))) - l * l
    k = cf('csqrt', ks); c = cf('ccosh', k * C(h)); s = cf('csinh', k * C(h)) / k
    return [[c - IU * l * s, q * s], [-(q.conj()) * s, c + IU * l * s]]


def mv(M, v): return [M[0][0] * v[0] + M[0][1] * v[1], M[1][0] * v[0] + M[1][1] * v[1]]


def minv(M):
    d = M[0][0] * M[1][1] - M[0][1] * M[1][0]
    return [[M[1][1] / d, -(M[0][1]) / d], [-(M[1][0]) / d, M[0][0] / d]]


def sdarboux(q, bs, b, T0, T1, seed):
    """q_n - 2i sum f1_j (G^-1)_jk conj(f2_k), G_jk = f_j^H f_k/(lam_k - conj lam_j)"""
    D = len(q); K = len(bs)
    dt = div(sub(T1, T0), const(D - 1)); h = mul(const(Fraction(1, 2)), dt)
    F = []
    for l, cst in zip(bs, b):
        if seed:
            phi = [[cexp(-(IU) * l * C(T0)), C.of(0)]]; psi = [[C.of(0), cexp(IU * l * C(T1))]]
            for n in range(1, D): phi.append(mv(sstep(q[n], l, h), mv(sstep(q[n - 1], l, h), phi[-1])))
            for n in range(D - 1, 0, -1): psi.insert(0, mv(minv(sstep(q[n - 1], l, h)), mv(minv(sstep(q[n], l, h)), psi[0])))
        else:
            t = [X.add(T0, mul(const(n), dt)) for n in range(D)]
            phi = [[cexp(-(IU) * l * C(x)), C.of(0)] for x in t]; psi = [[C.of(0), cexp(IU * l * C(x))] for x in t]
        F.append([[phi[n][i] - cst * psi[n][i] for i in (0, 1)] for n in range(D)])
    out = []
    for n in range(D):
        f = [x[n] for x in F]
        G = [[(f[j][0].conj() * f[k][0] + f[j][1].conj() * f[k][1]) / (bs[k] - bs[j].conj()) for k in range(K)] for j in range(K)]
        g = [x[1].conj() for x in f]
        y = [g[0] / G[0][0]] if K == 1 else mv(minv(G), g)
        z = q[n] if seed else C.of(0)
        for j in range(K): z = z - IU * C(const(2)) * f[j][0] * y[j]
        out.append(z)
    return out


def const_of(bs, r, a0=None):
    """norming constants from residues b/a'"""
    out = []
    for i, l in enumerate(bs):
        ad = (a0[i] if a0 else C.of(1)) / (l - l.conj())
        for j, m in enumerate(bs):
            if j != i: ad = ad * (l - m) / (l - m.conj())
        out.append(r[i] * ad)
    return out


def icase(M, cs, XI, K, D, kap, q=None, bs=None, nc=None, **kw):
    T = [var('T0'), var('T1')]
    return Case('fnft_nsev_inverse', [U(M), Arr('cs', M, role='io') if cs else Null(), Arr('XI', 2, 'd') if XI else Null(), U(K), Arr('bs', K, init=bs) if K else Null(), Arr('nc', K, init=nc) if K else Null(),
                                      U(D), Arr('q', D, role='io') if q else Arr('q', D, role='out'), Arr('T', 2, 'd', init=T), I(kap), Opts('nsev_inverse', **kw)])


BS = lambda K: [C(var('x%d' % k), var('y%d' % k)) for k in range(K)]


def upper(e, st, K):
    for k in range(K): gt(st, var('y%d' % k), ZERO)
    if K == 2: gt(st, var('y0'), var('y1'))


def sol(c, K, ds, met, sg):
    """added bound states, both orders of the list"""
    D = 2; seed = met != 'DEFAULT'
    for order in ([0, 1], [1, 0])[:K]:
        o = order[:K] if K == 2 else [0]
        bs = [BS(K)[k] for k in o]; nc = [X.cvar('nc%d' % k) for k in o]
        cs = icase(0, False, False, K, D, 1, q=seed, bs=bs, nc=nc, discspec_type=ds, contspec_inversion_method=met)
        nm = 'fnft_nsev_inverse adds bound states: K=%d order %s %s %s interval %s' % (K, o, ds, met, sg)
        def pre(e, st, cs):
            gt(st, var('T1'), var('T0')); upper(e, st, K)
            if sg == '+': gt(st, var('T0'), ZERO)
            if sg == '-': gt(st, ZERO, var('T1'))
            if sg == '0': gt(st, ZERO, var('T0')); gt(st, var('T1'), ZERO)
        e, R = cs.sym(c, contracts={}, pre=pre, generic=True)
        c.safety_fail(nm, cs, e)
        good = 0
        b = BS(K); n = [X.cvar('nc%d' % k) for k in range(K)]
        if ds == 'RESIDUES': n = const_of(b, n)
        want = sdarboux([X.cvar('q[%d]' % k) for k in range(D)], b, n, var('T0'), var('T1'), seed)
        for st in R:
            if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): return
            good += 1
            it = []
            for k in range(D):
                z = e.getc(st, cs.ptr['q'], k)
                if z.re is X.UNDEF: c.truth(nm, False); c.fail_concrete(nm, None, None, 'sample %d not written' % k); return
                it += cpairs('q', k, z, want[k])
            c.eq(nm, None, st, it, scope='bounded', sampler=ivl(sg), tol=1e-10)
            leak = [o_.name for o_ in st.live_heap()]
            c.truth(nm + ' releases its memory', not leak, scope='bounded') or c.fail_concrete(nm + ' memory', None, None, str(leak[:3]))
        if not good: c.record(nm, 'undecided', 'engine', 'no successful path')


def ivl(sg):
    def f(k, rng):
        if k == 'T0': return mpf(rng.uniform(.1, .3)) if sg == '+' else mpf(rng.uniform(-.9, -.6)) if sg == '-' else mpf(rng.uniform(-.4, -.1))
        if k == 'T1': return mpf(rng.uniform(.4, .9)) if sg in '+0' else mpf(rng.uniform(-.5, -.1))
        if k == 'y0': return mpf(rng.uniform(.6, .9))
        if k == 'y1': return mpf(rng.uniform(.2, .5))
        return samp(k, rng)
    return f


def peel(e, st, a):
    """nse_finvscatter(deg, T, q, eps, kappa, disc) [P15]: samples of the signal with this transfer matrix"""
    deg, T, q, eps, kap, dsc = a[:6]
    st.ghost['tm'] = (deg, [e.getc(st, T, k) for k in range(4 * (deg + 1))], eps, kap, dsc)
    need(e, st, st.ghost['tm'][1], 'nse_finvscatter')
    for k in range(deg): e.putc(st, q, k, X.cvar('qf%d' % k))
    return 0


def factor(e, st, a):
    """poly_specfact(deg, b, a, oversampling, kappa): a with |a|^2 + kappa |b|^2 = 1 on the circle, highest power first"""
    deg, b, r, os_, kap = a[:5]
    B = [e.getc(st, b, k) for k in range(deg + 1)]
    need(e, st, B, 'poly_specfact')
    st.ghost['sf'] = (deg, B, os_, kap)
    for k in range(deg + 1): e.putc(st, r, k, X.cvar('A%d' % k))
    return 0


def bsc(e, st, a):
    """nse_scatter_bound_states(D, q, r, T, K, bs, a, a', b, Ws, disc, skip_b) [P04]"""
    D, q, r, T, K, bs, av, ad, b, Ws = a[:10]
    st.ghost['bsc'] = ([e.getc(st, q, k) for k in range(D)], [e.getc(st, r, k) for k in range(D)], [e.getc(st, bs, k) for k in range(K)])
    for k in range(K):
        e.putc(st, av, k, X.cvar('a%d' % k)); e.putc(st, ad, k, X.cvar('ad%d' % k)); e.store(st, Ptr(Ws.o, Ws.off + 4 * k), 0, I32) if not isinstance(Ws, int) else None
    return 0


def tm(c, n, kap, M, t, K):
    """the transfer matrix belongs to the prescribed spectrum (first column: a and b, highest power first)"""
    D = deg = 2
    bs = BS(K)
    cs = icase(M, True, t != 'B_OF_TAU', K, D, kap, bs=bs or None, discretization=n, contspec_type=t)
    nm = 'fnft_nsev_inverse %s %s kappa=%d M=%d K=%d' % (n, t, kap, M, K)
    con = dict(FFT, **{'fnft__nse_finvscatter': peel, 'fnft__poly_specfact': factor})
    def pre(e, st, cs):
        upper(e, st, K)
        if t == 'B_OF_TAU': st.ghost['sym'] = 1
        gt(st, var('T1'), ZERO); gt(st, ZERO, var('T0'))
    if t == 'B_OF_TAU':
        cs.args[8] = Arr('T', 2, 'd', init=[X.neg(var('T1')), var('T1')])
        pre = lambda e, st, cs: (upper(e, st, K), gt(st, var('T1'), ZERO))
    e, R = cs.sym(c, contracts=con, pre=pre, generic=True)
    c.safety_fail(nm, cs, e)
    T1 = var('T1'); T0 = X.neg(T1) if t == 'B_OF_TAU' else var('T0')
    eps = div(sub(T1, T0), const(D - 1))
    d = [X.cvar('cs[%d]' % k) for k in range(M)]
    if t == 'B_OF_TAU':
        col = [C.of(0)] + [d[k] * C(mul(const(Fraction(1) if k in (0, D - 1) else Fraction(2)), eps)) for k in range(D)]
    else:
        Rb = X.add(T1, mul(const(Fraction(1, 2)), eps)); Lb = sub(T0, mul(const(Fraction(1, 2)), eps))
        pf = sub(eps, mul(const(2), Rb)) if t == 'REFLECTION_COEFFICIENT' else sub(eps, X.add(mul(const(D), eps), X.add(Rb, Lb)))
        xi0, xi1 = var('XI[0]'), var('XI[1]')
        dx = div(sub(xi1, xi0), const(M - 1))
        v = []
        for k in range(M):
            xi = X.add(xi0, mul(const(k), dx)); z = d[k]
            if t == 'REFLECTION_COEFFICIENT':
                for l in bs: z = z * (C(xi) - l) / (C(xi) - l.conj())
            v.append(z * cexp(-(IU) * C(mul(xi, pf))))
        co = []
        for m in range(M):
            s = C.of(0)
            for k in range(M): s = s + v[k] * omega(M, (m * (k - M // 2 + 1)) % M, -1)
            co.append(s / C(const(M)))
        col = [co[deg - k] if deg - k < M else C.of(0) for k in range(deg + 1)]
    good = 0
    for st in R:
        if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): return
        good += 1
        g = st.ghost.get('tm')
        ok = g is not None and g[0] == deg and g[3] in (kap, kap % (1 << 32)) and g[4] == enum('nse')[n]
        c.truth(nm + ': layer peeling of the right size', ok, scope='bounded') or c.fail_concrete(nm + ': layer peeling', None, None, str(g and (g[0], g[3], g[4])))
        if not ok: return
        it = []
        for k in range(deg + 1): it += cpairs('b', k, g[1][2 * (deg + 1) + k], col[k])
        it.append((None, g[2], eps))
        sf = st.ghost.get('sf')
        if t == 'REFLECTION_COEFFICIENT':
            for k in range(deg + 1): it += cpairs('a', k, g[1][k], C.of(1 if k == deg else 0))
        else:
            o = 1 if t == 'B_OF_TAU' else 0
            ok = sf is not None and sf[0] == deg - o and sf[3] in (kap, kap % (1 << 32))
            c.truth(nm + ': a from the spectral factorization', ok, scope='bounded') or c.fail_concrete(nm + ': spectral factorization', None, None, str(sf and (sf[0], sf[3])))
            if not ok: return
            for k in range(deg + 1):
                it += cpairs('a', k, g[1][k], X.cvar('A%d' % (k - o)) if k >= o else C.of(0))
                if k >= o: it += cpairs('factored', k, sf[1][k - o], col[k])
        c.eq(nm + ': transfer matrix', None, st, it, scope='bounded', sampler=samp, tol=1e-10)
        if K:
            want = sdarboux([X.cvar('qf%d' % k) for k in range(D)], bs, [X.cvar('nc[%d]' % k) for k in range(K)], T0, T1, True)
        else: want = [X.cvar('qf%d' % k) for k in range(D)]
        it = []
        for k in range(D): it += cpairs('q', k, e.getc(st, cs.ptr['q'], k), want[k])
        c.eq(nm + ': signal', None, st, it, scope='bounded', sampler=samp, tol=1e-10)
        leak = [o_.name for o_ in st.live_heap()]
        c.truth(nm + ' releases its memory', not leak, scope='bounded') or c.fail_concrete(nm + ' memory', None, None, str(leak[:3]))
    if not good: c.record(nm, 'undecided', 'engine', 'no successful path')


def grid(c, n, M):
    """announced grid: XI[0] + k (XI[1]-XI[0])/(M-1) are the points with z = exp(2i xi eps) on the M-th roots of unity, -pi < angle <= pi"""
    D = 4
    cs = Case('fnft_nsev_inverse_XI', [U(D), Arr('T', 2, 'd', init=[var('T0'), var('T1')]), U(M), Arr('XI', 2, 'd', role='out'), I(enum('nse')[n])])
    nm = 'fnft_nsev_inverse_XI %s M=%d' % (n, M)
    e, R = cs.sym(c, contracts={}, pre=lambda e, st, cs: gt(st, var('T1'), var('T0')), generic=True)
    c.safety_fail(nm, cs, e)
    eps = div(sub(var('T1'), var('T0')), const(D - 1)); pi = const(math.pi)
    good = 0
    for st in R:
        if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): return
        good += 1
        m = M // 2 + 1
        a0 = Fraction(2 * (m - M if 2 * m > M else m), M)
        it = [(('XI', 0), e.getd(st, cs.ptr['XI'], 0), div(mul(const(a0), pi), mul(const(2), eps))), (('XI', 1), e.getd(st, cs.ptr['XI'], 1), div(pi, mul(const(2), eps)))]
        c.eq(nm, None, st, it, scope='bounded', sampler=samp, tol=1e-12)
    if not good: c.record(nm, 'undecided', 'engine', 'no successful path')


# ------------------------------------------------------------------ compiled inversions, judged by the discretized forward problem
def half(q, l, h):
    k = np.sqrt(l * l + abs(q) ** 2 + 0j); c = np.cos(k * h); s = np.sinc(k * h / np.pi) * h
    return np.array([[c - 1j * l * s, q * s], [-np.conj(q) * s, c + 1j * l * s]])


def eig(q, l, T):
    D = len(q); h = (T[1] - T[0]) / (D - 1) / 2
    phi = np.zeros((D, 2), complex); psi = np.zeros((D, 2), complex)
    phi[0] = [np.exp(-1j * l * T[0]), 0]; psi[-1] = [0, np.exp(1j * l * T[1])]
    for n in range(1, D): phi[n] = half(q[n], l, h) @ half(q[n - 1], l, h) @ phi[n - 1]
    for n in range(D - 1, 0, -1): psi[n - 1] = np.linalg.solve(half(q[n], l, h) @ half(q[n - 1], l, h), psi[n])
    return phi, psi


def darboux(q, bs, b, T):
    K = len(bs); out = np.array(q, complex); F = []
    for l, k in zip(bs, b):
        p, s = eig(q, l, T)
        if not np.any(q):
            t = np.linspace(T[0], T[1], len(q)); p = np.stack([np.exp(-1j * l * t), 0 * t], 1); s = np.stack([0 * t, np.exp(1j * l * t)], 1)
        f = p - k * s; F.append(f / np.max(abs(f), axis=1)[:, None])
    for n in range(len(q)):
        f = np.array([x[n] for x in F])
        G = np.array([[np.vdot(f[j], f[k]) / (bs[k] - np.conj(bs[j])) for k in range(K)] for j in range(K)])
        out[n] -= 2j * (f[:, 0] @ np.linalg.solve(G, np.conj(f[:, 1])))
    return out


def a_seed(q, l, T):
    """a of the seed at l (BO, boundaries half a step outside the interval)"""
    return nse_ab('BO', q, T, 1, np.array([l]))[1][0]


def to_const(q, bs, r, T):
    a0 = [1.0 if not np.any(q) else a_seed(q, l, T) for l in bs]
    return np.array([r[i] * a0[i] / (bs[i] - np.conj(bs[i])) * np.prod([(bs[i] - bs[j]) / (bs[i] - np.conj(bs[j])) for j in range(len(bs)) if j != i]) for i in range(len(bs))])


def inv(cs, XI, bs, nc, D, T, kap, q=None, opts=None, **kw):
    M = 0 if cs is None else len(cs); K = len(bs)
    return Case('fnft_nsev_inverse', [U(M), RawArr('cs', np.array(cs, complex), 'io') if M else Null(), RawArr('XI', np.array(XI, float)) if XI is not None else Null(), U(K),
                                      RawArr('bs', np.array(bs, complex)) if K else Null(), RawArr('nc', np.array(nc, complex)) if K else Null(),
                                      U(D), RawArr('q', np.full(D, SENT) if q is None else np.array(q, complex), 'io'), RawArr('T', np.array(T, float)), I(kap), Null() if opts is None and not kw else Opts('nsev_inverse', **kw)])


def xigrid(D, T, M):
    eps = (T[1] - T[0]) / (D - 1)
    k = np.arange(M) - (M // 2 - 1)
    g = np.pi * k / M / eps
    return np.array([g[0], g[-1]]), g


def close(x, y, tol):
    d = np.abs(x - y) / (1 + np.abs(y))
    if not np.all(np.isfinite(d)) or np.max(d) > tol: return 'differs by %.3g at index %d' % (np.nanmax(d) if np.any(np.isfinite(d)) else np.nan, int(np.argmax(np.where(np.isfinite(d), d, np.inf))))


def coeff(rng, n, amp):
    """polynomial with sup norm <= amp on the circle, coefficients decaying in both directions or generic"""
    co = rng.normal(size=n) + 1j * rng.normal(size=n)
    if rng.random() < .5: co = co * np.exp(-((np.arange(n) - n / 2) / (n / 6 + 1)) ** 2)
    s = np.max(np.abs(np.fft.fft(co, 16 * n)))
    return co * amp / s


def randT(rng):
    a = float(rng.uniform(-4, 3)); return [a, a + float(rng.uniform(.5, 6))]


def impulse(n, q, T, kap, N, rad=.9):
    """first power series coefficients of b/a in z"""
    D = len(q); eps = (T[1] - T[0]) / (D - 1)
    z = rad * np.exp(2j * np.pi * np.arange(N) / N)
    qp, rp = nprep('nse', n, q, D, eps, kap)[:2]
    H11, H21, L = nse_H(n, qp, rp, eps, np.log(z) / (2j * eps))
    return np.fft.fft(H21 / H11) / N / rad ** np.arange(N)


def cont_item(rng, n, kap, kind, D, M, K):
    T = randT(rng)
    if kind == 'B_OF_TAU': T = [-T[1] + T[0], T[1] - T[0]]
    XI, g = xigrid(D, T, M); eps = (T[1] - T[0]) / (D - 1)
    pr, pa, pb = nse_pf(n, eps, D, T); z = np.exp(2j * g * eps)
    bs = rng.uniform(-1, 1, K) + 1j * rng.uniform(.3, .9, K) if K else []
    sc = 3.0 / (T[1] - T[0]) if K else 1
    bs = np.array(bs) * sc
    nc = np.exp(.5 * rng.normal(size=K) + 2j * np.pi * rng.uniform(size=K)) if K else []
    ds = 'RESIDUES' if K and rng.random() < .5 else 'NORMING_CONSTANTS'
    kw = dict(discretization=n, discspec_type=ds)
    if kind == 'B_OF_XI':
        co = coeff(rng, D, .5); d = np.polyval(co[::-1], z) * np.exp(1j * g * pb); kw['contspec_type'] = kind
    elif kind == 'B_OF_TAU':
        co = coeff(rng, D, .5); w = np.ones(D); w[0] = w[-1] = .5; d = co / (2 * eps * w); kw['contspec_type'] = kind
    elif kind == 'ITER':
        co = coeff(rng, D, .2); d = np.polyval(co[::-1], z) * np.exp(1j * g * pr); kw['contspec_inversion_method'] = 'TFMATRIX_CONTAINS_AB_FROM_ITER'
    else:
        co = coeff(rng, M, .4); d = np.polyval(co[::-1], z) * np.exp(1j * g * pr)
        if kind != 'DEFAULT': kw['contspec_inversion_method'] = kind
    pre = np.ones(M, complex)
    if kind not in ('B_OF_XI', 'B_OF_TAU'):
        for l in bs: pre *= (g - l) / (g - np.conj(l))
    cs = inv(d / pre, XI if kind != 'B_OF_TAU' else None, bs, nc, D, T, kap, **kw)
    # oracle for the seed: the same spectrum without bound states
    cs0 = inv(d, XI if kind != 'B_OF_TAU' else None, [], [], D, T, kap, **kw)
    def judge(o):
        if o['ret'] != 0: return 'returned %s' % o['ret']
        if not o['guards']: return 'memory outside the buffers or an input was modified'
        q = o['q']
        if K:
            q0 = o['seed']
            b = to_const(q0, bs, nc, T) if ds == 'RESIDUES' else nc
            w = close(q, darboux(q0, bs, b, T), 1e-6)
            return w and 'signal with %d bound states on top of the continuous spectrum %s' % (K, w)
        if kind == 'B_OF_XI': w = close(nse_ab(n, q, T, kap, g)[2], d, 1e-8)
        elif kind == 'B_OF_TAU':
            x = np.linspace(-2, 2, 11) / eps / 2; t = np.linspace(T[0], T[1], D)
            w = close(nse_ab(n, q, T, kap, x)[2], np.array([np.sum(co * np.exp(-2j * y * t)) for y in x]), 1e-8)
        elif kind == 'ITER': w = close(nse_ab(n, q, T, kap, g)[0], d, 1e-5)
        else:
            w = close(impulse(n, q, T, kap, 64 * max(D, 8))[:D], co[:D], 1e-7)
            return w and 'impulse response of the reflection coefficient %s' % w
        return w and 'spectrum of the signal %s' % w
    info = dict(D=D, M=M, T=T, kappa=kap, contspec=[str(x) for x in d[:40]], bound_states=[str(x) for x in bs], constants=[str(x) for x in nc], **{k: str(v) for k, v in kw.items()})
    nm = 'inverse %s %s kappa=%d D=%d M=%d K=%d executed' % (n, kind, kap, D, M, K)
    if not K: return (nm, cs, judge, info)
    def run():
        s = cs0.conc({}, 'real')
        o = cs.conc({}, 'real')
        r = dict(o); r['seed'] = s['q']
        if s['ret']: r['ret'] = s['ret']
        return r
    return (nm, NP('fnft_nsev_inverse', run, nm), judge, info)


def disc_item(rng, D, K, seed, ds, opts, where, special=None):
    T = {'any': randT(rng), 'pos': [.5, 3.], 'neg': [-3., -.25], 'sym': [-2.5, 2.5], 'edge': [0., 2.], 'edgeneg': [-2., 0.]}[where]
    s = 3.0 / (T[1] - T[0])
    bs = (rng.uniform(-1, 1, K) + 1j * rng.uniform(.3, 1.2, K)) * s
    if K > 1 and rng.random() < .3: bs[1] = bs[1].real + 1j * bs[0].imag
    nc = np.exp(.7 * rng.normal(size=K) + 2j * np.pi * rng.uniform(size=K))
    q = None
    kw = dict(discspec_type=ds)
    if seed:
        x = np.linspace(-3, 3, D)
        q = s * rng.uniform(.2, .9) / np.cosh(x) * np.exp(1j * rng.normal() * x) if seed == 1 else s * .3 * (rng.normal(size=D) + 1j * rng.normal(size=D))
        kw['contspec_inversion_method'] = 'USE_SEED_POTENTIAL_INSTEAD'
    if special == 'resonant':           # the propagator's exponent vanishes: |q|^2 + lambda^2 = 0
        q = np.full(D, .5 * s, complex); bs[0] = 1j * (.5 * s); kw['contspec_inversion_method'] = 'USE_SEED_POTENTIAL_INSTEAD'
    if opts and not seed and special is None: kw = {}; ds = 'NORMING_CONSTANTS'
    perm = list(rng.permutation(K))
    cs = inv(None, None, bs[perm], nc[perm], D, T, 1, q=q, **kw)
    qs = np.zeros(D) if q is None else q
    # pure solitons: residues refer to the empty seed
    b = nc if ds != 'RESIDUES' else to_const(np.zeros(D), bs, nc, T)
    ref = darboux(qs, bs, b, T)
    def judge(o):
        if o['ret'] != 0: return 'returned %s' % o['ret']
        if not o['guards']: return 'memory outside the buffers or an input was modified'
        w = close(o['q'], ref, 1e-7)
        return w and 'signal %s from the one with exactly the prescribed bound states' % w
    return ('inverse bound states K=%d D=%d seed=%s %s T %s %s executed' % (K, D, seed, ds, where, special or ''), cs, judge,
            dict(D=D, T=T, bound_states=[str(x) for x in bs[perm]], constants=[str(x) for x in nc[perm]], seed=str(q)[:300], **{k: str(v) for k, v in kw.items()}))


def fwd_item(rng, D, K, mode):
    """forward spectrum of the signal contains the bound states with the prescribed constants, up to the second order of the discretization"""
    T = [-8.0, 9.0]
    bs = rng.uniform(-.5, .5, K) + 1j * (.45 + .35 * np.arange(K) + rng.uniform(0, .1, K)); nc = np.exp(.5 * rng.normal(size=K) + 2j * np.pi * rng.uniform(size=K))
    def call(D):
        t = np.linspace(T[0], T[1], D)
        if mode == 'pure': return inv(None, None, bs, nc, D, T, 1)
        return inv(None, None, bs, nc, D, T, 1, q=.35 / np.cosh(t) * np.exp(.4j * t), contspec_inversion_method='USE_SEED_POTENTIAL_INSTEAD')
    def run():
        r = []
        for d in (D, 2 * D):
            o = call(d).conc({}, 'real')
            if o['ret']: return dict(ret=o['ret'], err=None, guards=True)
            h = 1e-6; q = o['q']
            f = lambda l: nse_ab('BO', q, T, 1, np.array(l))
            a, b = f(list(bs) + [l + h for l in bs] + [l - h for l in bs])[1:3]
            ad = (a[K:2 * K] - a[2 * K:]) / (2 * h)
            (dl,) = (abs(a[:K] / ad),)
            r.append(np.max(dl))
        return dict(ret=0, err=r, guards=True)
    def judge(o):
        if o['ret']: return 'returned %s' % o['ret']
        x, y = o['err']
        if not (x < .05 and (y < x / 2.5 or y < 1e-7)): return 'zeros of a are off by %.3g, %.3g with twice as many samples' % (x, y)
    nm = 'forward spectrum of %s D=%d K=%d executed' % (mode, D, K)
    return (nm, NP('fnft_nsev_inverse', run, nm), judge, dict(D=D, T=T, bound_states=[str(x) for x in bs]))


def xi_item(D, T, M, n):
    cs = Case('fnft_nsev_inverse_XI', [U(D), RawArr('T', np.array(T, float)), U(M), RawArr('XI', np.zeros(2), 'out'), I(enum('nse')[n])])
    def judge(o):
        if o['ret'] != 0: return 'returned %s' % o['ret']
        if not o['guards']: return 'memory outside the buffers or an input was modified'
        XI, g = xigrid(D, T, M)
        w = close(o['XI'] * (T[1] - T[0]) / (D - 1), XI * (T[1] - T[0]) / (D - 1), 1e-9)
        return w and 'grid %s %s' % (o['XI'], w)
    return ('announced grid %s D=%d M=%d T=%s executed' % (n, D, M, T), cs, judge, dict(D=D, T=T, M=M, discretization=n))


def factor_item(rng, deg, os_, kap):
    """poly_specfact: |a|^2 + kappa |b|^2 = 1 (kappa 0: |a| = |b|) on the circle with a free of zeros on one side"""
    co = coeff(rng, deg + 1, .6)
    if kap == 0: co = co * .3; co[0] = 1
    N = 256 * (deg + 1)
    B = np.fft.fft(co, N)
    x = .5 * np.log(1 - kap * abs(B) ** 2) if kap else np.log(abs(B))
    f = np.fft.fft(x); k = np.arange(N); f[0] = 0; f[(k > 0) & (2 * k < N)] *= -1j; f[2 * k == N] = 0; f[2 * k > N] *= 1j
    ref = np.conj(np.fft.ifft(np.exp(x - 1j * np.fft.ifft(f)))[:deg + 1][::-1])
    cs = Case('fnft__poly_specfact', [U(deg), RawArr('p', co), RawArr('r', np.full(deg + 1, SENT), 'out'), U(os_), I(kap)])
    def judge(o):
        if o['ret'] != 0: return 'returned %s' % o['ret']
        if not o['guards']: return 'memory outside the buffers or an input was modified'
        w = close(o['r'], ref, 1e-11)
        return w and 'spectral factor %s' % w
    return ('poly_specfact deg=%d oversampling=%d kappa=%d executed' % (deg, os_, kap), cs, judge, dict(deg=deg, poly=[str(z) for z in co[:40]], oversampling=os_, kappa=kap))


def seed_residue_item():
    """fixed instance of the recorded finding: residues on top of a seed potential"""
    D, T, bs, r = 128, [-6.0, 6.0], np.array([.4 + .9j]), np.array([.5 - .3j])
    q = .4 / np.cosh(np.linspace(*T, D)) * np.exp(-.8j * np.linspace(*T, D))
    cs = inv(None, None, bs, r, D, T, 1, q=q, discspec_type='RESIDUES', contspec_inversion_method='USE_SEED_POTENTIAL_INSTEAD')
    ref = darboux(q, bs, to_const(q, bs, r, T), T)
    def judge(o):
        if o['ret'] != 0: return 'returned %s' % o['ret']
        w = close(o['q'], ref, 1e-3)
        return w and 'signal %s from the one whose residues b/a_prime are the prescribed ones' % w
    return 'inverse residues on top of a seed potential executed', cs, judge, dict(key=KNOWN_SEED, D=D, T=T, bound_states=[str(x) for x in bs], residues=[str(x) for x in r])


def battery(c):
    rng = np.random.default_rng(c.seed + 16)
    it = [seed_residue_item()]
    rep = 1 if c.tier == 'quick' else 6
    for _ in range(rep):
        for n in NS:
            for kap in (1, -1):
                for D, Ms in ((2, (2, 4, 6)), (4, (4, 6, 10)), (16, (16, 32, 18)), (32, (32, 48)), (64, (64, 128)), (128, (128, 256))):
                    for M in Ms:
                        for kind in ('B_OF_XI', 'DEFAULT', 'TFMATRIX_CONTAINS_REFL_COEFF'): it.append(cont_item(rng, n, kap, kind, D, M, 0))
                    it.append(cont_item(rng, n, kap, 'B_OF_TAU', D, D, 0))
                    if kap == -1: it.append(cont_item(rng, n, kap, 'ITER', D, D, 0))
                    elif D >= 4:
                        for kind in ('B_OF_XI', 'B_OF_TAU', 'DEFAULT'):
                            for K in (1, 2, 3): it.append(cont_item(rng, n, kap, kind, D, D if kind == 'B_OF_TAU' else Ms[-1], K))
        for K in (1, 2, 3, 4):
            for seed in (0, 1, 2):
                for w in ('any', 'pos', 'neg', 'sym', 'edge', 'edgeneg'):
                    for ds in ('NORMING_CONSTANTS', 'RESIDUES'):
                        it.append(disc_item(rng, int(rng.choice((2, 4, 16, 64))), K, seed, ds, int(rng.integers(2)), w))
            it.append(disc_item(rng, 16, K, 0, 'NORMING_CONSTANTS', 0, 'sym', 'resonant'))
        for kap in (1, -1, 0):
            for deg in (1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 40, 100): it.append(factor_item(rng, deg, int(rng.choice((32, 50))), kap))
        for K in (1, 2, 3):
            for m in ('pure', 'seed'): it.append(fwd_item(rng, 256, K, m))
        for n in NS:
            for D, M in ((2, 2), (4, 4), (8, 6), (16, 32), (64, 128), (1024, 2048), (3, 8), (5, 6)):
                it.append(xi_item(D, randT(rng), M, n))
    c.battery(it, 'real', stop=3)
