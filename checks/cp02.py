"""P02: fast transfer matrices of the AKNS, NSE and KdV problems."""
from contracts import *
from schemes import *
import numpy as np
LEVEL = 'other'
TECHNIQUE = 'contract-based deductive verification (function-by-function VCs from clang IR) + bounded execution of the same contracts'
NOTE = 'Samples q, r and step size symbolic; number of samples 1..3 (bounded), poly_fmult2x2 replaced by its contract (P01). Exact reals; decimal weights compared to 1e-9.'
SOURCES = ['akns_fscatter', 'nse_fscatter', 'kdv_fscatter', 'akns_disc', 'nse_disc', 'kdv_disc', 'poly_fmult', 'misc', 'fft_wrapper', 'kiss_fft.c']


def check(c):
    jobs = []
    for n in sorted(DEG, key=lambda n: -DEG[n]):
        Ds = (1, 2, 3) if DEG[n] <= 6 else (1, 2)
        for D in Ds:
            jobs.append(('akns', n, D, 1))
        jobs.append(('akns', n, 1, 0))
        for fam in ('nse', 'kdv'):
            jobs.append((fam, n, 2 if DEG[n] < 20 else 1, 1))
        jobs.append(('kdv', n + '_VANILLA', 2 if DEG[n] < 20 else 1, 1))
    c.parallel(run, jobs)
    battery(c)


def cases(fam, name, D, withW, kap=-1, q=None, r=None, res=None):
    deg = DEG[name.replace('_VANILLA', '')]
    v = enum(fam).get(name)
    if v is None:
        return None, None
    n2 = 1
    while n2 < D:
        n2 *= 2
    cap = 4 * (deg + 1) * n2
    fn = {'akns': 'fnft__akns_fscatter', 'nse': 'fnft__nse_fscatter', 'kdv': 'fnft__kdv_fscatter'}[fam]
    q = q or Arr('q', D); r = r or Arr('r', D); res = res or Arr('res', cap, role='out')
    W = Arr('W', 1, 'i', 'io', init=[0]) if withW else Null()
    a = [U(D), q, r, F('eps')] + ([I(kap)] if fam == 'kdv' else []) + [res, Arr('d', 1, 'u', 'out'), W, I(v)]
    return Case(fn, a), deg


def samp(k, rng):
    return mpf(rng.uniform(0.05, 0.4)) if str(k) == 'eps' else mpf(rng.uniform(-1, 1))


def run(c, fam, name, D, withW):
    cs, deg = cases(fam, name, D, withW)
    nm = '%s_fscatter %s D=%d%s' % (fam, name, D, ' W' if withW else '')
    if cs is None:
        c.record(nm, 'undecided', '', 'discretization not found'); return
    sym(c, cs, nm, fam, name, deg, D, withW)


def sym(c, cs, nm, fam, name, deg, D, withW):
    base = name.replace('_VANILLA', '')
    log = []
    try:
        e, R = cs.sym(c, contracts=dict(CSINC, **dict(FMULT, fnft__poly_fmult2x2=fmult_contract(2, log))), pre=lambda e, st, s: e.assume_pos('eps') if hasattr(e, 'assume_pos') else None)
    except Unsupported as u:
        c.record(nm, 'undecided', 'engine', u); return
    c.safety_fail(nm, cs, e)
    q = [cvar('q[%d]' % k) for k in range(D)]; r = [cvar('r[%d]' % k) for k in range(D)]
    if fam == 'kdv' and name == base:
        q, r = r, q
    fac = []
    for k in range(D):
        M = factor2(base, q[k], r[k], var('eps'), deg)
        fac.append([[topoly(x, deg) for x in row] for row in M])
    fac.reverse()
    spec = prod_polymats(fac, 2)
    L = D * deg + 1
    good = 0
    for st in R:
        if st.retval != 0:
            # admissible only for eps<=0, a failed allocation, or the pole of the modal scheme
            if fpath_neg_eps(c, st):
                continue
            if base == '2SPLIT2_MODAL' and abs(sret(st.retval)) == 3:   # E_DIV_BY_ZERO at the pole QR=1
                continue
            c.fail_concrete(nm + ' succeeds', cs, lambda o: o['ret'] != 0, 'returned %s' % st.retval, poseps(c)); continue
        good += 1
        dv = e.getu(st, cs.ptr['d'])
        if dv != L - 1:
            c.fail_concrete(nm + ' degree', cs, lambda o: int(o['d'][0]) != L - 1, 'degree %s, contract %d' % (dv, L - 1), poseps(c)); continue
        s = ONE
        if withW:
            Wv = e.geti(st, cs.ptr['W'])
            s = ONE if Wv == 0 else var('2^-' + list(Wv.d)[0][0]) if not isinstance(Wv, int) else ONE
        items = []
        for i in range(2):
            for j in range(2):
                for k in range(L):
                    z = spec[i][j][k]
                    if s is not ONE:
                        z = C(mul(z.re, s), mul(z.im, s))
                    items += cpairs('res', (i * 2 + j) * L + k, e.getc(st, cs.ptr['res'], (i * 2 + j) * L + k), z)
        c.eq(nm, None if withW else cs, st, items, sampler=samp, scope='bounded')
    if not good:
        c.record(nm, 'undecided', 'engine', 'no successful path')


def poseps(c):
    a = c.rand_assign(); a['eps'] = mpf('0.2')
    return a


def fpath_neg_eps(c, st):
    """the path is only reachable for eps <= 0 (or unordered)"""
    for p in path_conds(st):
        rel, x, y = p
        if x is var('eps') and rel in ('ole', 'olt', 'oeq', 'uno') and X.isc(y):
            return True
    return False


def battery(c):
    rng = np.random.default_rng(c.seed)
    items = []
    for name in DEG:
        for D in (1, 2, 3, 5, 8, 17) if DEG[name] < 50 else (1, 3, 4):
            for fam, nm in (('akns', name), ('nse', name), ('kdv', name), ('kdv', name + '_VANILLA')):
                if fam != 'akns' and D not in (2, 5, 3):
                    continue
                for typ in (0, 1, 2):
                    eps = [0.13, 0.31, 0.07][typ]
                    q = rng.normal(size=D) + 1j * rng.normal(size=D)
                    r = -np.conj(q) if typ == 0 else np.conj(q) if typ == 1 else rng.normal(size=D) + 1j * rng.normal(size=D)
                    if fam == 'kdv':
                        q = q.real + 0j; r = -np.ones(D) + 0j
                    if typ == 2:
                        q[0] = 0
                    it = one(fam, nm, name, D, typ, eps, q, r)
                    if it:
                        items.append(it)
    c.battery(items)


def one(fam, nm, name, D, typ, eps, q, r):
    W = typ != 0
    cs, deg = cases(fam, nm, D, W, -1 if typ == 0 else 1, RawArr('q', q), RawArr('r', r), None)
    lab = '%s %s compiled D=%d set %d' % (fam, nm, D, typ)
    if cs is None:
        return None
    for i, a in enumerate(cs.args):
        if a.name == 'res':
            cs.args[i] = RawArr('res', np.full(a.n, 1e77 + 0j), 'out')
        if isinstance(a, F):
            cs.args[i] = F(eps)
    def judge(o):
        qq, rr = (r, q) if fam == 'kdv' and nm == name else (q, r)
        L = D * deg + 1
        z = np.exp(2j * np.pi * np.arange(L) / L)
        T = ntransfer2(name, qq, rr, eps, z)
        co = np.fft.fft(T, axis=2) / L      # values at z -> coefficients
        co = co[:, :, ::-1]                 # highest power first
        if o['ret'] != 0:
            return 'returned %d' % o['ret']
        if int(o['d'][0]) != L - 1:
            return 'degree %d instead of %d' % (o['d'][0], L - 1)
        if not o['guards']:
            return 'memory outside the buffers or an input was modified'
        got = o['res'][:4 * L].reshape(2, 2, L) * 2.0 ** (int(o['W'][0]) if W else 0)
        err = np.max(np.abs(got - co)) / np.max(np.abs(co))
        if not err < 1e-9:
            k = np.unravel_index(np.argmax(np.abs(got - co)), co.shape)
            return 'entry (%d,%d) coefficient %d is %s, product of the documented factors gives %s' % (k[0], k[1], k[2], got[k], co[k])
    return lab, cs, judge, dict(discretization=nm, D=D, eps_t=eps, q=[str(x) for x in q], r=[str(x) for x in r])
