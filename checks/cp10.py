"""P10: continuous spectrum of the vanishing-boundary Schroedinger transform."""
from api import *
from cp22 import subs, prep_spec
from ir import PTR
LEVEL = 'other'
TECHNIQUE = 'contract-based deductive verification of fnft_nsev over the contracts of preprocessing (P22), fast scattering (P02), slow scattering (P03) and chirp transform (P09); compiled transform against the definition'
NOTE = 'Polynomial coefficients / scattering matrices, interval and spectral range symbolic; number of samples and grid points bounded. The compiled transform is compared with an independent product of matrix exponentials.'
SOURCES = ['fnft_nsev.c', 'nse_', 'akns_', 'misc', 'poly_', 'fft_wrapper', 'kiss_fft.c']


def gt(st, a, b):
    """assume a > b"""
    st.facts[('f', a.id, b.id)] = frozenset('>')
    st.facts[('f', X.sub(a, b).id, ZERO.id)] = frozenset('>')
    st.facts[('f', X.sub(b, a).id, ZERO.id)] = frozenset('<')
    st.path.append(('f', '>', a, b))


def carr(e, st, p, n):
    return [e.getc(st, p, k) for k in range(n)]


def chirpz_contract(e, st, a):
    """fnft__poly_chirpz(deg, p, A, W, M, result): result[k] = p(1/(A W^-k)) [P09]"""
    deg, p, Ar, Ai, Wr, Wi, M, res = a
    if not isinstance(deg, int) or not isinstance(M, int): raise Unsupported('symbolic sizes')
    co = carr(e, st, p, deg + 1)
    need(e, st, co, 'poly_chirpz')
    iA = C.of(1) / C(Ar, Ai); W = C(Wr, Wi); z = iA
    for k in range(M):
        s = co[0]
        for x in co[1:]: s = s * z + x
        e.putc(st, res, k, s)
        z = z * W
    return 0


def need(e, st, l, who):
    if any(x.re is X.UNDEF or x.im is X.UNDEF for x in l):
        e.ob('initialised', False, st, who + ': uninitialised input'); raise PathEnd('uninit')


def prep_contract(fam, log=None):
    """*_discretization_preprocess_signal: new arrays with the effective samples for the requested subsampling [P22]"""
    def f(e, st, a):
        if fam == 'manakov':
            D, q1, q2, eps, dsp, pq, pr, fl, disc = a; kappa = 0
        else:
            D, q1, eps, kappa, dsp, pq, pr, fl, disc = a
        ds = e.load(st, dsp, I64)
        if not isinstance(D, int) or not isinstance(ds, int): raise Unsupported('symbolic sizes')
        nsk, w = subs(D, ds)
        u = upsv(fam, disc)
        if not u: return (-2) % (1 << 32)
        qs = carr(e, st, q1, D); need(e, st, qs, 'preprocess')
        if fam == 'manakov': q2s = carr(e, st, q2, D); need(e, st, q2s, 'preprocess')
        out = []
        for pp, nm in ((pq, 'q'), (pr, 'r')):
            o = st.new(16 * w * u, 'heap', 'preprocessed ' + nm)
            for k in range(w * u): e.putc(st, Ptr(o.id, 0), k, X.cvar('%s%d_%d' % (nm, ds, k)))
            e.store(st, pp, Ptr(o.id, 0), PTR); out.append(o.id)
        e.store(st, dsp, w, I64)
        e.store(st, fl, 0, I64); e.store(st, Ptr(fl.o, fl.off + 8), (w - 1) * nsk, I64)
        st.ghost.setdefault('prep', ()); st.ghost['prep'] = st.ghost['prep'] + ((ds, eps, kappa, disc, D, tuple((x.re.id, x.im.id) for x in qs)),)
        return 0
    return f


def upsv(fam, v):
    for n, x in enum(fam).items():
        if x == v: return (MUPS if fam == 'manakov' else UPS).get(n.replace('_VANILLA', ''), 1)
    return 0


def degv(fam, v):
    for n, x in enum(fam).items():
        if x == v: return DEG.get(n.replace('_VANILLA', ''), 0)
    return 0


def fscatter_contract(fam, ent, nz=None):
    """fast scattering: transfer matrix polynomials (fresh coefficients), scaled by 2^-W [P02/P13]"""
    def f(e, st, a):
        if fam == 'nse': D, q, r, eps, res, dp, W, disc = a; kap = None
        elif fam == 'kdv': D, q, r, eps, kap, res, dp, W, disc = a
        else: D, q, r, kap, eps, res, dp, W, disc = a
        deg = (DEG if fam != 'manakov' else MDEG).get(nameof(fam, disc), 0)
        if not deg: return (-2) % (1 << 32)
        L = deg * D + 1
        qs = carr(e, st, q, D) + carr(e, st, r, D); need(e, st, qs, 'fscatter')
        tag = qs[0].re.a[0].split('_')[0] if qs[0].re.op == 'v' else '?'
        for i in range(ent):
            for k in range(L):
                e.putc(st, res, i * L + k, X.cvar('H%s_%d_%d' % (tag, i, k)) if nz is None or (k in (0, L - 1) or k % nz == 1) else C.of(0))
        e.store(st, dp, deg * D, I64)
        if W != 0:
            w = e.newint(st, 'W' + tag, -1000, 1000)
            e.store(st, W, w, I32)
        st.ghost['fsc'] = st.ghost.get('fsc', ()) + ((tag, D, eps, kap, W != 0, disc, tuple((x.re.id, x.im.id) for x in qs)),)
        return 0
    return f


def nameof(fam, v):
    for n, x in enum(fam).items():
        if x == v: return n.replace('_VANILLA', '')
    return '?'


def smat_contract(e, st, a):
    """nse_scatter_matrix(D,q,r,eps_t,kappa,K,lambda,result,W,disc,derivative_flag): 2x2 scattering matrices, scaled by 2^-W [P03]"""
    D, q, r, eps, kappa, K, lam, res, W, disc, der = a
    if der != 0: raise Unsupported('derivative')
    qs = carr(e, st, q, D) + carr(e, st, r, D); need(e, st, qs, 'scatter_matrix')
    ls = carr(e, st, lam, K); need(e, st, ls, 'scatter_matrix')
    tag = qs[0].re.a[0].split('_')[0] if qs[0].re.op == 'v' else '?'
    for k in range(K):
        for i in range(4): e.putc(st, res, 4 * k + i, X.cvar('S%s_%d_%d' % (tag, k, i)))
        if W != 0: e.store(st, Ptr(W.o, W.off + 4 * k), e.newint(st, 'W%s_%d' % (tag, k), -1000, 1000), I32)
    st.ghost['slow'] = st.ghost.get('slow', ()) + ((tag, D, eps, kappa, disc, tuple((x.re.id, x.im.id) for x in qs), tuple(ls)),)
    st.ghost['sw'] = st.ghost.get('sw', ()) + ((tag, W != 0),)
    return 0


def scaled(st, tag):
    """did the scattering step that produced the values with this tag report exponents?"""
    return any(x[0] == tag and x[4] for x in st.ghost.get('fsc', ())) or any(t == tag and w for t, w in st.ghost.get('sw', ()))


INNER = {'fnft__nse_discretization_preprocess_signal': prep_contract('nse'), 'fnft__poly_chirpz': chirpz_contract, 'fnft__nse_scatter_matrix': smat_contract,
         'fnft__nse_fscatter': fscatter_contract('nse', 4)}


def check(c):
    warm('nsev')
    jobs = []
    for n in ALL:
        for D, M in (((2, 2), (3, 3)) if DEG.get(n, 0) < 13 else ((2, 2),)):
            for ct_ in ('REFLECTION_COEFFICIENT', 'AB', 'BOTH'):
                for kap in ((1, -1) if ct_ == 'BOTH' else (1,)):
                    for nf in ((1, 0) if D == 2 else (1,)):
                        jobs.append((n, D, M, ct_, kap, nf))
    c.parallel(job, jobs)
    battery(c)


def job(c, n, D, M, ct_, kap, nf, rich=0):
    if c.viol: return
    T0, T1, X0, X1 = (var(x) for x in ('T0', 'T1', 'X0', 'X1'))
    m = {'REFLECTION_COEFFICIENT': 1, 'AB': 2, 'BOTH': 3}[ct_]
    cs = Case('fnft_nsev', [U(D), Arr('q', D), Arr('T', 2, 'd', init=[T0, T1]), U(M), Arr('cs', m * M, role='out'), Arr('XI', 2, 'd', init=[X0, X1]), Null(), Null(), Null(), I(kap),
                            Opts('nsev', discretization=n, contspec_type=ct_, normalization_flag=nf, richardson_extrapolation_flag=rich)])
    nm = 'fnft_nsev contspec %s D=%d M=%d %s kappa=%d norm=%d' % (n, D, M, ct_, kap, nf)
    def pre(e, st, cs): gt(st, T1, T0); gt(st, X1, X0)
    con = dict(INNER); con['fnft__nse_fscatter'] = fscatter_contract('nse', 4, None if DEG.get(n, 0) < 13 else 17)
    e, R = cs.sym(c, contracts=con, pre=pre)
    c.safety_fail(nm, cs, e)
    eps = div(sub(T1, T0), const(D - 1)); dxi = div(sub(X1, X0), const(M - 1))
    xi = [add(X0, mul(const(k), dxi)) for k in range(M)]
    good = 0
    for st in R:
        if st.retval != 0 and abs(sret(st.retval)) == 3 and any(p[0] == 'f' and set(p[1]) == {'='} for p in st.path): continue
        if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): continue
        good += 1
        calls(c, nm, cs, st, n, D, kap, eps, xi)
        want = spectrum(e, st, n, D, M, eps, T0, T1, xi, ct_, nf, 'q%d' % D)
        it = []
        for k in range(m * M): it += cpairs('cs', k, e.getc(st, cs.ptr['cs'], k), want[k])
        c.eq(nm, None, st, it, scope='bounded', sampler=samp) or refute(c, nm)
        leak = [o.name for o in st.live_heap()]
        c.truth(nm + ' releases its memory', not leak, scope='bounded') or c.fail_concrete(nm + ' memory', None, None, str(leak[:3]))
    if not good: c.record(nm, 'undecided', 'engine', 'no successful path')


def refute(c, nm): return False


def samp(k, rng):
    k = str(k)
    if k == 'T0' or k == 'X0': return mpf(rng.uniform(-2, -.5))
    if k == 'T1' or k == 'X1': return mpf(rng.uniform(.5, 2))
    if k.startswith('int:'): return mpf(rng.randrange(-3, 4))
    return mpf(rng.uniform(-1.2, 1.2))


def pow2(st, e, nm):
    return fn('pow', const(2), var('int:' + nm))


def spectrum(e, st, n, D, M, eps, T0, T1, xi, ct_, nf, tag, pow2=None):
    """contract of the continuous spectrum in terms of the inner results"""
    h = const(Fraction(1, 2))
    L, Rb = sub(T0, mul(h, eps)), add(T1, mul(h, eps))
    fast = n in DEG
    sh = eps if n in ('2SPLIT2A', '2SPLIT2_MODAL') else ZERO
    fr = mul(const(-D), eps) if fast else ZERO
    pr, pa, pb = add(mul(const(-2), Rb), sh), add(fr, sub(Rb, L)), add(sub(sub(fr, Rb), L), sh)
    rho, A, B = [], [], []
    nf = scaled(st, tag)
    deg = DEG.get(n, 0) * ups(n) * D
    two = lambda x: X.fn('exp2', x) if False else _pow2(x)
    for k in range(M):
        if fast:
            z = cexp(IU * C(mul(xi[k], mul(eps, const(Fraction(2, DEG[n] * ups(n)))))))
            H = []
            for ent in (0, 2):
                s = C.of(0)
                for j in range(deg + 1):
                    if DEG[n] >= 13 and not (j in (0, deg) or j % 17 == 1): s = s * z; continue
                    s = s * z + X.cvar('H%s_%d_%d' % (tag, ent, j))
                H.append(s)
            sc = _pow2('W' + tag) if nf else ONE
        else:
            H = [X.cvar('S%s_%d_0' % (tag, k)), X.cvar('S%s_%d_2' % (tag, k))]
            sc = _pow2('W%s_%d' % (tag, k)) if nf else ONE
        ph = lambda p: cexp(IU * C(mul(xi[k], p)))
        rho.append(H[1] * ph(pr) / H[0]); A.append(H[0] * ph(pa) * C(sc)); B.append(H[1] * ph(pb) * C(sc))
    return {'REFLECTION_COEFFICIENT': rho, 'AB': A + B, 'BOTH': rho + A + B}[ct_]


def _pow2(nm):
    from engine import _pow
    return _pow(const(2), var('int:' + nm))


def calls(c, nm, cs, st, n, D, kap, eps, xi, tags=None):
    """the inner steps are called on the preprocessed samples, with the right step size, sign and grid"""
    g = st.ghost
    u = ups(n); v = enum('nse')[n]
    ok, why = True, ''
    for (ds, e2, k2, disc, DD, q) in g.get('prep', ())[:1]:
        if (k2 - (1 << 32) if k2 >= 1 << 31 else k2) != kap or disc != v or DD != D or q != tuple((X.cvar('q[%d]' % k).re.id, X.cvar('q[%d]' % k).im.id) for k in range(D)): ok, why = False, 'preprocessing called with other data'
        if ds != D: ok, why = False, 'preprocessing asked for %d samples' % ds
        c.eq(nm + ': step size handed to preprocessing', None, st, [(None, e2, eps)], scope='bounded', sampler=samp)
    for l in (g.get('fsc', ()), g.get('slow', ())):
        for x in l[:1]:
            if x[1] != D * u: ok, why = False, 'scattering called with %s samples' % x[1]
            c.eq(nm + ': step size handed to scattering', None, st, [(None, x[2], eps)], scope='bounded', sampler=samp)
            ids = x[6] if len(x) == 7 and n in DEG else x[5]
            if ids != tuple((X.cvar('%s%d_%d' % (a, D, k)).re.id, X.cvar('%s%d_%d' % (a, D, k)).im.id) for a in 'qr' for k in range(D * u)): ok, why = False, 'scattering called with other samples'
            if n not in DEG:
                c.eq(nm + ': grid handed to scattering', None, st, [y for k in range(len(xi)) for y in ((None, x[6][k].re, xi[k]), (None, x[6][k].im, ZERO))], scope='bounded', sampler=samp)
    c.truth(nm + ': inner calls', ok, scope='bounded') or c.fail_concrete(nm + ': inner calls', None, None, why)


def battery(c):
    rng = np.random.default_rng(c.seed + 10)
    items = []
    for n in ALL:
        for kap in (1, -1):
            for typ in range(7 if DEG.get(n, 0) < 24 else 5):
                ct_ = ('BOTH', 'AB', 'REFLECTION_COEFFICIENT')[(typ + (kap > 0)) % 3]
                it = one(n, kap, typ, ct_, rng, nf=(typ + kap) % 2 if typ < 5 else 1)
                if it: items.append(it)
            items.append(one(n, kap, 3, 'BOTH', rng, 1, True))
    for n in ('2SPLIT4B', '2SPLIT2_MODAL', 'BO', '4SPLIT4A', 'CF4_2', 'ES4', '2SPLIT2A', '2SPLIT3S'):
        for ct_ in ('BOTH', 'AB', 'REFLECTION_COEFFICIENT'):
            for typ in range(7):
                for nf in (0, 1):
                    it = one(n, -1, typ, ct_, rng, nf)
                    if it: items.append(it)
    c.battery(items)


def one(n, kap, typ, ct_, rng, nf, M1=False):
    D, M = [(2, 2), (3, 7), (8, 3), (13, 16), (64, 5), (200, 33), (96, 4)][typ]
    if M1: M = 1   # the documented grid has one point, XI[0]
    if DEG.get(n, 0) > 12: D = min(D, 16)
    T = [(-1.0, 1.5), (0.0, 2.0), (3.0, 5.0), (-7.0, -2.0), (-10.0, 10.0), (-9.0, 12.0), (-20.0, 20.0)][typ]
    XI = [(-1.0, 2.0), (0.5, 0.75), (-3.0, -1.0), (-0.2, 0.9), (-1.5, 1.5), (-2.0, 0.5), (-.3, .4)][typ]
    if typ == 6:
        if kap == 1 or not nf or n not in ('BO', '2SPLIT4B', '2SPLIT2_MODAL', '2SPLIT2A', 'CF4_2'): return None
        # strong defocusing: a and b overflow, the reflection coefficient does not
        q = 30 * np.exp(1j * np.linspace(0, 2, D)); ct_ = 'REFLECTION_COEFFICIENT'
    elif typ >= 4:
        t = np.linspace(*T, D); q = 1.3 / np.cosh(t) * np.exp(0.7j * t) + 0.1 * np.exp(-t * t) * rng.normal(size=D)
    else:
        q = rng.normal(size=D) + 1j * rng.normal(size=D)
        if typ == 2: q[3] = 0
        if n == '2SPLIT2_MODAL' and kap < 0: q *= 0.9 / max(1.0, np.abs(q).max() * (T[1] - T[0]) / (D - 1))   # the square root of the scheme is real below one
    cs = nsev_case(q, T, M, XI, kappa=kap, discretization=n, contspec_type=ct_, normalization_flag=nf)
    lam = XI[0] + (XI[1] - XI[0]) / max(M - 1, 1) * np.arange(M)
    def judge(o):
        if o['ret'] != 0: return 'returned %d' % o['ret']
        if not o['guards']: return 'memory outside the buffers or an input was modified'
        rho, a, b, *_ = nse_ab(n, q, T, kap, lam)
        w = {'REFLECTION_COEFFICIENT': [rho], 'AB': [a, b], 'BOTH': [rho, a, b]}[ct_]
        for k, x in enumerate(w):
            g = o['cs'][k * M:(k + 1) * M]
            tol = (1e-8 if DEG.get(n, 0) < 100 else 1e-6) * max(1.0, np.abs(b / a).max() if np.isfinite(a).all() else 1) * max(np.abs(x).max(), np.abs(a).max() if ct_ != 'REFLECTION_COEFFICIENT' and k >= len(w) - 2 else 0)
            if DEG.get(n, 0) * D > 800: tol *= 100
            i = int(np.nanargmax(np.where(np.isfinite(g), np.abs(g - x), np.inf)))
            if not abs(g[i] - x[i]) <= tol: return '%s at xi=%s is %s, discretized problem gives %s' % (['rho', 'a', 'b'][k + (ct_ == 'AB')], lam[i], g[i], x[i])
    return ('%s kappa=%d %s D=%d M=%d norm=%d executed' % (n, kap, ct_, D, M, nf), cs, judge, dict(discretization=n, kappa=kap, T=T, XI=XI, q=[str(x) for x in q[:64]]))
