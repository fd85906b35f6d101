"""P03: slow scattering matrices (AKNS, NSE, KdV)."""
from contracts import *
from specs import *
LEVEL = 'other'
TECHNIQUE = 'contract-based deductive verification (function-by-function VCs from clang IR) + bounded execution of the same contracts'
NOTE = 'Samples, spectral parameters and step size symbolic; 1..2 given samples and 1..2 spectral parameters (bounded). CSINC and helper contracts used at call sites only after being discharged on the current body.'
SOURCES = ['akns_scatter', 'nse_scatter', 'kdv_scatter', 'akns_disc', 'nse_disc', 'kdv_disc', 'misc', 'fft_wrapper', 'kiss_fft.c']


def U_BO(st_args):
    """contract of akns_scatter_U_BO: expm of the frozen 2x2 system and its derivative"""
    q, r, l, h = [C(st_args[2 * k], st_args[2 * k + 1]) for k in range(4)]
    return expm2(Du(-(IU * h)) * Du(l, 1), Du(q * h), Du(r * h), )


def check(c):
    jobs = []
    for disc in SLOW:
        for dv in (0, 1):
            for fam, van in (('akns', 0), ('nse', 0), ('kdv', 0), ('kdv', 1)):
                for pde in (('NSE', 'KdV') if fam == 'akns' else (None,)):
                    for D, K, W in ((1, 2, 0), (2, 1, 1), (2, 1, 0)) if fam != 'akns' else ((1, 1, 0), (2, 1, 1)):
                        jobs.append((fam, disc, van, dv, D, K, W, pde))
    jobs.sort(key=lambda j: -(j[3] * 10 + j[4]))
    c.parallel(run, jobs)
    battery(c)


def case(fam, disc, van, dv, D, K, W, pde, arrs=None, eps='eps'):
    m = ups(disc)
    n = D * m
    A = arrs or {}
    q, r = A.get('q') or Arr('q', n), A.get('r') or Arr('r', n)
    lam = A.get('l') or Arr('l', K)
    res = A.get('res') or Arr('res', K * (8 if dv else 4), role='out')
    Wp = Arr('W', K, 'i', 'out') if W else Null()
    name = disc + ('_VANILLA' if fam == 'kdv' and van else '')
    v = enum(fam).get(name)
    if v is None:
        return None
    if fam == 'akns':
        P = {'KdV': 0, 'NSE': 1}[pde]
        return Case('fnft__akns_scatter_matrix', [U(n), q, r, F(eps), U(K), lam, res, Wp, I(v), I(P), U(van), U(dv)])
    return Case('fnft__%s_scatter_matrix' % fam, [U(n), q, r, F(eps), I(-1), U(K), lam, res, Wp, I(v), U(dv)])


def normvec(e, st, a):
    n, p = a
    w = e.freshint(st, 'a', -1000, 1000)
    s = var('2^-' + list(w.d)[0][0])
    for k in range(n):
        z = e.getc(st, p, k)
        e.putc(st, p, k, C(mul(z.re, s), mul(z.im, s)))
    return w


NV = {'fnft__misc_normalize_vector': normvec, 'misc_normalize_vector': normvec}


def samp(k, rng):
    return mpf(rng.uniform(0.05, 0.4)) if str(k) == 'eps' else mpf(rng.uniform(-1, 1))


def run(c, fam, disc, van, dv, D, K, W, pde):
    cs = case(fam, disc, van, dv, D, K, W, pde)
    nm = '%s_scatter_matrix %s%s%s D=%d K=%d deriv=%d%s' % (fam, disc, ' vanilla' if van else '', ' ' + pde if pde else '', D, K, dv, ' W' if W else '')
    if cs is None:
        c.record(nm, 'undecided', '', 'discretization not found'); return
    try:
        e, R = cs.sym(c, contracts=dict(CSINC, **NV), generic=True)
    except Unsupported as u:
        c.record(nm, 'undecided', 'engine', u); return
    c.safety_fail(nm, cs, e)
    m = ups(disc); n = D * m
    q = [cvar('q[%d]' % k) for k in range(n)]; r = [cvar('r[%d]' % k) for k in range(n)]
    if fam == 'kdv' and not van:
        q, r = r, q
    P = pde or {'nse': 'NSE', 'kdv': 'KdV'}[fam]
    spec = [scatter(P, disc, van, q, r, cvar('l[%d]' % k), var('eps'), D) for k in range(K)]
    good = 0
    for st in R:
        if st.retval != 0:
            if neg_eps(st) or (P == 'KdV' and abs(sret(st.retval)) == 3):
                continue
            c.fail_concrete(nm + ' succeeds', cs, lambda o: o['ret'] != 0, 'returned %s' % st.retval, {'eps': mpf('0.2')}); continue
        good += 1
        items = []
        for k in range(K):
            s = ONE
            if W:
                Wv = e.geti(st, cs.ptr['W'], k)
                s = scale_of(Wv)
                if s is None:
                    c.record(nm, 'undecided', '', 'exponent %s' % Wv); return
            sc = lambda z: C(mul(z.re, s), mul(z.im, s)) if s is not ONE else z
            w = 8 if dv else 4
            for i in range(2):
                for j in range(2):
                    items += cpairs('res', w * k + 2 * i + j, e.getc(st, cs.ptr['res'], w * k + 2 * i + j), sc(spec[k][i][j].v))
                    if dv:
                        items += cpairs('res', w * k + 4 + 2 * i + j, e.getc(st, cs.ptr['res'], w * k + 4 + 2 * i + j), sc(spec[k][i][j].d))
        c.eq(nm, None if W else cs, st, items, sampler=samp, scope='bounded')
    if not good:
        c.record(nm, 'undecided', 'engine', 'no successful path')


def scale_of(Wv):
    if isinstance(Wv, int):
        return ONE if Wv == 0 else const(Fraction(2) ** (-Wv))
    s = ONE
    for mo, cf_ in Wv.d.items():
        if len(mo) != 1 or cf_ < 0:
            return None
        for _ in range(cf_):
            s = mul(s, var('2^-' + mo[0]))
    return s


def neg_eps(st):
    for rel, x, y in path_conds(st):
        if x is var('eps') and rel in ('ole', 'olt', 'oeq', 'uno') and X.isc(y):
            return True
    return False


def battery(c):
    rng = np.random.default_rng(c.seed + 3)
    items = []
    for disc in SLOW:
        for fam, van in (('akns', 0), ('nse', 0), ('kdv', 0), ('kdv', 1)):
            for pde in (('NSE', 'KdV') if fam == 'akns' else (None,)):
                for D in (1, 3, 7):
                    for dv in (0, 1):
                        for W in (0, 1):
                            for typ in (0, 1, 2, 3):
                                it = one(fam, disc, van, dv, D, W, pde, typ, rng)
                                if it:
                                    items.append(it)
    c.battery(items)


def one(fam, disc, van, dv, D, W, pde, typ, rng):
    m = ups(disc); n = D * m; K = 3
    eps = (0.11, 0.29, 0.4, 0.25)[typ]
    q = rng.normal(size=n) + 1j * rng.normal(size=n); r = rng.normal(size=n) + 1j * rng.normal(size=n)
    lam = np.array([0.7 + 0.3j, -1.3 + 0j, 0.2 + 1.1j]) + rng.normal(size=3) * 0.1
    if typ == 1:
        r = -np.conj(q); q[0] = r[0] = 0
    if typ == 2:
        q *= 3; r *= 2.5
    if typ == 3:
        # q r = lambda^2 in every sample: the exponent of BO and of the CF steps is nilpotent
        lam = np.array([1j, 0.5 + 0j, 1j])
        q = np.full(n, 1.0 + 0j); r = -np.ones(n) + 0j
        if disc in ('ES4', 'TES4'):
            q[1::3] = q[2::3] = r[1::3] = r[2::3] = 0
    arrs = dict(q=RawArr('q', q), r=RawArr('r', r), l=RawArr('l', lam), res=RawArr('res', np.full(K * (8 if dv else 4), 1e77 + 0j), 'out'))
    cs = case(fam, disc, van, dv, D, K, W, pde, arrs, eps)
    if cs is None:
        return None
    lab = '%s %s van=%d deriv=%d W=%d %s compiled D=%d set %d' % (fam, disc, van, dv, W, pde, D, typ)
    def judge(o):
        qq, rr = (r, q) if fam == 'kdv' and not van else (q, r)
        P = pde or {'nse': 'NSE', 'kdv': 'KdV'}[fam]
        if o['ret'] != 0:
            return 'returned %d' % o['ret']
        if not o['guards']:
            return 'memory outside the buffers or an input was modified'
        for k in range(K):
            S = nscatter(P, disc, van, qq, rr, lam[k], eps, D)
            want = np.concatenate([S[:2, :2].ravel(), S[2:, :2].ravel()] if dv else [S[:2, :2].ravel()])
            got = o['res'].reshape(K, -1)[k] * 2.0 ** (int(o['W'][k]) if W else 0)
            for part in range(0, len(want), 4):
                err = np.max(np.abs(got[part:part + 4] - want[part:part + 4])) / max(1e-3, np.max(np.abs(want)))
                if not err < 1e-7:
                    return 'lambda=%s: code %s, exact product %s' % (lam[k], got[part:part + 4], want[part:part + 4])
    return lab, cs, judge, dict(discretization=disc, D=D, eps_t=eps, q=[str(x) for x in q], r=[str(x) for x in r], lam=[str(x) for x in lam])
