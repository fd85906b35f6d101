"""P05: conservation laws of the discretized scattering problems."""
from cp03 import *
import cp03, cp02
from schemes import *
LEVEL = 'other'
TECHNIQUE = 'contract-based deductive verification (symbolic postconditions over clang IR) + bounded execution of the same contracts'
NOTE = 'Potential, step size and real spectral parameter symbolic; 1..2 samples (bounded). Unit determinant is claimed for schemes that are products of exponentials, the conjugation symmetry for all schemes with real coefficients.'
SOURCES = cp03.SOURCES + ['akns_fscatter', 'nse_fscatter', 'kdv_fscatter', 'poly_fmult', 'manakov_scatter', 'manakov_disc']
REALCF = ['BO', 'CF4_2', 'CF4_3', 'ES4', 'TES4']
GROUP = ['2SPLIT1A', '2SPLIT1B', '2SPLIT2A', '2SPLIT2B', '2SPLIT2_MODAL']


def conj(z):
    return C(z.re, X.neg(z.im))


def laws(H, kap, unit=True):
    """items: H = [H11,H12,H21,H22] in the S basis; second column = (-kap conj b, conj a), |a|^2 + kap |b|^2 = 1"""
    a, b, c_, d = H
    k = C.of(kap)
    it = [(d, conj(a)), (b, C.of(0) - k * conj(c_))]
    out = []
    for x, y in it:
        out += [(None, x.re, y.re), (None, x.im, y.im)]
    if unit:
        n2 = lambda z: X.add(mul(z.re, z.re), mul(z.im, z.im))
        out.append((None, X.add(n2(a), mul(const(kap), n2(c_))), ONE))
        dt = a * d - b * c_
        out += [(None, dt.re, ONE), (None, dt.im, ZERO)]
    return out


def check(c):
    jobs = []
    for disc in SLOW:
        for D in (2, 1):
            for kap in (1, -1):
                jobs.append(('slow', 'nse', disc, 0, D, kap))
            if disc == 'TES4':
                continue        # r = (-1,0,0): the outer exponents are nilpotent, executed only
            jobs.append(('slow', 'kdv', disc, 0, D, -1))
            jobs.append(('slow', 'kdv', disc, 1, D, -1))
    for n in DEG:
        if DEG[n] > 12: continue
        for kap in (1, -1):
            jobs.append(('fast', n, kap, 2 if n in GROUP else 1))
    for disc in ('BO', 'CF4_2'):
        for kap in (1, -1):
            for D in (1, 2):
                jobs.append(('man', disc, kap, D))
    jobs.sort(key=lambda j: (j[0] != 'slow', -(j[4] if j[0] == 'slow' else j[3])))
    c.parallel(go, jobs)
    battery(c)


def go(c, kind, *a):
    {'slow': slow, 'fast': fast, 'man': man}[kind](c, *a)


def slow(c, fam, disc, van, D, kap):
    m = ups(disc); n = D * m
    nm = '%s_scatter_matrix %s%s kappa=%d D=%d conservation' % (fam, disc, ' vanilla' if van else '', kap, D)
    if fam == 'nse':
        q = [cvar('q[%d]' % k) for k in range(n)]; r = [C.of(0) - C.of(kap) * conj(z) for z in q]
        law = kap
    else:
        q = [C(var('q[%d]' % k), ZERO) for k in range(n)]
        r = [C.of(-1) if not (disc in ('ES4', 'TES4') and k % 3) else C.of(0) for k in range(n)]
        law = -1
    lam = [C(var('l'), ZERO)]
    cs = case(fam, disc, van, 0, D, 1, 0, None, dict(q=Arr('q', n, init=q), r=Arr('r', n, init=r), l=Arr('l', 1, init=lam)))
    if cs is None:
        c.record(nm, 'undecided', '', 'discretization not found'); return
    e, R = cs.sym(c, contracts=dict(CSINC, **NV), generic=True)
    for st in R:
        if st.retval != 0:
            continue
        H = [e.getc(st, cs.ptr['res'], k) for k in range(4)]
        if disc in REALCF:
            c.eq(nm, cs, st, named(laws(H, law)), sampler=samp, scope='bounded')
        else:
            dt = H[0] * H[3] - H[1] * H[2]
            c.eq(nm + ' (determinant)', cs, st, named([(None, dt.re, ONE), (None, dt.im, ZERO)]), sampler=samp, scope='bounded')


def named(it):
    return it


def fast(c, name, kap, D):
    u = ups(name); n = D * u
    nm = 'nse_fscatter %s kappa=%d D=%d conservation' % (name, kap, D)
    q = [cvar('q[%d]' % k) for k in range(n)]; r = [C.of(0) - C.of(kap) * conj(z) for z in q]
    cs, deg = cp02.cases('nse', name, n, 0, kap, Arr('q', n, init=q), Arr('r', n, init=r))
    if cs is None:
        return
    e, R = cs.sym(c, contracts=dict(CSINC, **dict(FMULT, fnft__poly_fmult2x2=fmult_contract(2, []))), generic=True)
    L = n * deg + 1
    for st in R:
        if st.retval != 0:
            continue
        P = [[e.getc(st, cs.ptr['res'], i * L + k) for k in range(L)] for i in range(4)]
        it = []
        for k in range(L):
            x, y = P[3][k], conj(P[0][L - 1 - k])
            it += [(None, x.re, y.re), (None, x.im, y.im)]
            y = C.of(0) - C.of(kap) * conj(P[2][L - 1 - k])
            x = P[1][k]
            it += [(None, x.re, y.re), (None, x.im, y.im)]
        c.eq(nm + ' (symmetry)', cs, st, it, sampler=samp, scope='bounded')
        if name in GROUP:
            it = []
            for k in range(2 * L - 1):
                s = C.of(0)
                for i in range(max(0, k - L + 1), min(k, L - 1) + 1):
                    s = s + P[0][i] * P[3][k - i] - P[1][i] * P[2][k - i]
                w = ONE if k == (L - 1) else ZERO
                it += [(None, s.re, w), (None, s.im, ZERO)]
            c.eq(nm + ' (determinant)', cs, st, it, sampler=samp, scope='bounded')


def man(c, disc, kap, D):
    m = 2 if disc == 'CF4_2' else 1
    n = D * m
    nm = 'manakov_scatter_matrix %s kappa=%d D=%d conservation' % (disc, kap, D)
    v = enum('manakov').get(disc)
    cs = Case('fnft__manakov_scatter_matrix', [U(n), Arr('q', n), Arr('p', n), F('eps'), U(1), Arr('l', 1, init=[C(var('l'), ZERO)]), I(kap), Arr('res', 9, 'c', 'out'), I(v)])
    e, R = cs.sym(c, contracts=CSINC, generic=True)
    for st in R:
        if st.retval != 0: continue
        S = [[e.getc(st, cs.ptr['res'], 3 * i + j) for j in range(3)] for i in range(3)]
        J = [1, kap, kap]
        it = []
        for i in range(3):
            for j in range(3):
                s = sum((C.of(J[k]) * conj(S[k][i]) * S[k][j] for k in range(1, 3)), conj(S[0][i]) * S[0][j])
                it += [(None, s.re, const(J[i]) if i == j else ZERO), (None, s.im, ZERO)]
        c.eq(nm, cs, st, it, sampler=samp, scope='bounded')


# ------------------------------------------------------------------ execution
def battery(c):
    rng = np.random.default_rng(c.seed + 5)
    items = []
    for disc in SLOW:
        for fam, van in (('nse', 0), ('kdv', 0), ('kdv', 1)):
            for D in (1, 4, 33):
                for kap in ((1, -1) if fam == 'nse' else (-1,)):
                    for W in (0, 1):
                        items.append(bslow(fam, disc, van, D, kap, W, rng))
    for n in DEG:
        for D in (1, 2, 5, 12) if DEG[n] < 30 else (1, 2):
            for kap in (1, -1):
                items.append(bfast(n, D, kap, rng))
    for disc in ('BO', 'CF4_2'):
        for D in (1, 3, 20):
            for kap in (1, -1):
                for z in (0, 1, 2):
                    items.append(bman(disc, D, kap, z, rng))
    c.battery([x for x in items if x])


def bslow(fam, disc, van, D, kap, W, rng):
    m = ups(disc); n = D * m; K = 4; eps = float(rng.uniform(0.03, 0.4))
    lam = np.array([0.0 if fam == 'nse' else 0.31, 1.0, -2.3, 7.7]) + 0j
    if fam == 'nse':
        q = rng.normal(size=n) + 1j * rng.normal(size=n); q[0] = -1.0; r = -kap * np.conj(q)
    else:
        q = rng.normal(size=n) + 0j; r = -np.ones(n) + 0j
        if disc in ('ES4', 'TES4'): r[1::3] = r[2::3] = 0
    cs = case(fam, disc, van, 0, D, K, W, None, dict(q=RawArr('q', q), r=RawArr('r', r), l=RawArr('l', lam), res=RawArr('res', np.full(4 * K, 1e77 + 0j), 'out')), eps)
    if cs is None: return None
    def judge(o):
        if o['ret'] != 0: return 'returned %d' % o['ret']
        for k in range(K):
            H = o['res'].reshape(K, 4)[k] * 2.0 ** (int(o['W'][k]) if W else 0)
            sc = np.abs(H).max()
            if disc in REALCF:
                if not abs(abs(H[0]) ** 2 + kap * abs(H[2]) ** 2 - 1) < 1e-9 * sc ** 2:
                    return 'lambda=%s: |a|^2%+d|b|^2 = %r' % (lam[k], kap, abs(H[0]) ** 2 + kap * abs(H[2]) ** 2)
                if not (abs(H[3] - np.conj(H[0])) < 1e-9 * sc and abs(H[1] + kap * np.conj(H[2])) < 1e-9 * sc):
                    return 'lambda=%s: second column of %s is not determined by the first' % (lam[k], H)
            if not abs(H[0] * H[3] - H[1] * H[2] - 1) < 1e-9 * sc ** 2:
                return 'lambda=%s: determinant %s' % (lam[k], H[0] * H[3] - H[1] * H[2])
    return '%s %s van=%d D=%d kappa=%d W=%d executed' % (fam, disc, van, D, kap, W), cs, judge, dict(q=[str(x) for x in q], eps=eps, lam=[str(x) for x in lam])


def bfast(n, D, kap, rng):
    De = D * ups(n); eps = float(rng.uniform(0.03, 0.3))
    q = rng.normal(size=De) + 1j * rng.normal(size=De); r = -kap * np.conj(q)
    if kap < 0: q *= 0.8; r *= 0.8
    cs, deg = cp02.cases('nse', n, De, 1, kap, RawArr('q', q), RawArr('r', r))
    if cs is None: return None
    for i, a in enumerate(cs.args):
        if a.name == 'res': cs.args[i] = RawArr('res', np.full(a.n, 1e77 + 0j), 'out')
        if isinstance(a, F): cs.args[i] = F(eps)
    L = De * deg + 1
    def judge(o):
        if o['ret'] != 0: return 'returned %d' % o['ret']
        P = o['res'][:4 * L].reshape(4, L) * 2.0 ** int(o['W'][0])
        th = np.array([0.3, 1.7, -2.2, 3.0]); z = np.exp(1j * th)
        V = np.array([np.polyval(p, z) for p in P]) * np.exp(-0.5j * th * (L - 1))
        sc = np.abs(V).max() ** 2
        ok = np.abs(V[3] - np.conj(V[0])).max() ** 2 < 1e-18 * sc and (np.abs(V[1] + kap * np.conj(V[2])).max() ** 2 < 1e-18 * sc)
        if not ok: return 'conjugation symmetry violated on the unit circle: %s' % V[:, 0]
        if n in GROUP:
            dd = np.abs(V[0]) ** 2 + kap * np.abs(V[2]) ** 2
            if not np.abs(dd - 1).max() < 1e-9 * sc: return '|a|^2%+d|b|^2 = %s' % (kap, dd)
    return 'nse %s D=%d kappa=%d executed' % (n, D, kap), cs, judge, dict(discretization=n, eps=eps, q=[str(x) for x in q])


def bman(disc, D, kap, z, rng):
    n = D * (2 if disc == 'CF4_2' else 1); eps = float(rng.uniform(0.03, 0.4))
    q = rng.normal(size=n) + 1j * rng.normal(size=n); p = rng.normal(size=n) + 1j * rng.normal(size=n)
    lam = np.array([0, 1.0, -2.3]) + 0j
    if z:
        p[0] = 0
        if z == 2: q[:] = 1; p[:] = 0; lam[0] = 2.0
        else: q[0] = 0
    cs = Case('fnft__manakov_scatter_matrix', [U(n), RawArr('q', q), RawArr('p', p), F(eps), U(3), RawArr('l', lam), I(kap), RawArr('res', np.full(27, 1e77 + 0j), 'out'), I(enum('manakov')[disc])])
    J = np.diag([1, kap, kap])
    def judge(o):
        if o['ret'] != 0: return 'returned %d' % o['ret']
        for k in range(3):
            S = o['res'][9 * k:9 * k + 9].reshape(3, 3)
            sc = max(1, np.abs(S).max()) ** 2
            d = np.abs(S.conj().T @ J @ S - J).max()
            if not d < 1e-9 * sc: return 'lambda=%s: S^H J S - J is %r, S=%s' % (lam[k], d, S.tolist())
    return 'manakov %s D=%d kappa=%d set %d executed' % (disc, D, kap, z), cs, judge, dict(discretization=disc, eps=eps, lam=[str(x) for x in lam], q1=[str(x) for x in q], q2=[str(x) for x in p])
