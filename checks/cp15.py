"""P15: layer peeling undoes the fast forward step."""
from pubsym import *
from contracts import matmul_poly, prod_polymats, FFT
from specs import *
from cp09 import NP
from harness import Arg
import itertools
from engine import Ptr
LEVEL = 'other'
TECHNIQUE = 'contract-based deductive verification of nse_finvscatter / kdv_finvscatter over the contract of the polynomial product (itself discharged against its body); compiled round trips'
NOTE = 'Samples, step size and both kappa symbolic; number of samples 2 and 4 (bounded). Round trips with the compiled library for power-of-two lengths up to 1024.'
SOURCES = ['finvscatter', 'nse_fscatter', 'kdv_fscatter', 'akns_fscatter', 'nse_disc', 'kdv_disc', 'akns_disc', 'poly_fmult', 'misc', 'fft_wrapper', 'kiss_fft.c']
KNOWN = 'kdv_finvscatter 2SPLIT2A recovers the samples only to first order'
SUP = ('2SPLIT2_MODAL', '2SPLIT2A')


def two_contract(e, st, a):
    """poly_fmult_two_polys2x2(deg, p1, s1, p2, s2, result, sr, ...): result = p1 p2, entries with strides [P01 and job 'two']"""
    deg, p1, s1, p2, s2, res, sr = a[:7]
    L = deg + 1
    get = lambda p, s: [[[e.getc(st, p, (2 * i + j) * s + k) for k in range(L)] for j in (0, 1)] for i in (0, 1)]
    A, B = get(p1, s1), get(p2, s2)
    need(e, st, [z for M in (A, B) for r in M for x in r for z in x], 'poly_fmult_two_polys2x2')
    R = matmul_poly(A, B, 2)
    for i in (0, 1):
        for j in (0, 1):
            for k in range(2 * deg + 1): e.putc(st, res, (2 * i + j) * sr + k, R[i][j][k])
    return 0


def samp(k, rng):
    return mpf(rng.uniform(.1, .6))


def fact(fam, kap, k):
    """per-sample factor without its scalar (which cancels): coefficients in the order of the transfer matrix; (factor, Q)"""
    o, one = C.of(0), C.of(1)
    Q = cvar('Q%d' % k)
    R = C(X.neg(var('eps'))) if fam == 'kdv' else C(mul(const(-kap), Q.re), mul(const(kap), Q.im))
    c = C(var('c%d' % k))
    return [[[o, c], [c * Q, o]], [[o, c * R], [c, o]]]


def fin(fam, deg, T, q, eps, kap, v):
    return Case('fnft__%s_finvscatter' % fam, [U(deg), T, q, eps] + ([I(kap)] if fam == 'nse' else []) + [I(v)])


def check(c):
    warm('nsev')
    jobs = [(spec, fam, n, D, kap) for D in (4, 2) for fam in ('nse', 'kdv') for n in SUP for kap in (1, -1) if not (fam == 'kdv' and (kap == -1 or n != SUP[0]))]
    jobs += [(two, *x) for x in itertools.product((1, 2, 3), (0, 2), (0, 3))]
    for fam in ('nse', 'kdv'):
        for n, v in sorted(enum(fam).items()):
            b = n.replace('_VANILLA', '')
            if n in SUP or b not in DEG: continue
            jobs += [(reject, fam, n, DEG[b] * ups(b) * D, 1) for D in ((2, 3, 4) if DEG[b] * ups(b) <= 4 else (2,))]
        for n in SUP: jobs += [(reject, fam, n, d, k) for d in (0, 1, 3, 5, 6, 7, 12) for k in (1, -1)] + [(reject, fam, n, 4, k) for k in (0, 2)]
    c.parallel(disp, jobs)
    battery(c)


def disp(c, f, *a):
    if c.viol: return
    f(c, *a)


def spec(c, fam, n, D, kap):
    P = prod_polymats([fact(fam, kap, k) for k in reversed(range(D))], 2)
    T = Arr('T', 4 * (D + 1), role='io', init=[z for r in P for x in r for z in x])
    cs = fin(fam, D, T, Arr('q', D, role='out'), F('eps'), kap, enum(fam)[n])
    nm = '%s_finvscatter %s D=%d kappa=%d' % (fam, n, D, kap)
    e, R = cs.sym(c, contracts={'fnft__poly_fmult_two_polys2x2': two_contract}, pre=lambda e, st, cs: gt(st, var('eps'), ZERO), generic=True)
    c.safety_fail(nm, cs, e)
    good = 0
    for st in R:
        if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): return
        good += 1
        it = []
        for k in range(D):
            Q = cvar('Q%d' % k); z = e.getc(st, cs.ptr['q'], k)
            if z.re is X.UNDEF: c.truth(nm, False); c.fail_concrete(nm, None, None, 'sample %d not written' % k); return
            if n == SUP[0]: w = Q / C(var('eps'))
            else:
                m = div(X.fn('atan' if kap == 1 else 'atanh', X.fn('cabs', Q.re, Q.im)), var('eps'))
                w = cexp(C(ZERO, X.fn('carg', Q.re, Q.im))) * C(m)
            it += cpairs('q', k, z, w)
        c.eq(nm + ': samples recovered', None, st, it, scope='bounded', sampler=samp)
        leak = [o.name for o in st.live_heap()]
        c.truth(nm + ' releases its memory', not leak, scope='bounded') or c.fail_concrete(nm + ' memory', None, None, str(leak[:3]))
    if not good: c.record(nm, 'undecided', 'engine', 'no successful path')


def two(c, deg, mode, pad):
    """the matrix polynomial product used by the recursion, against its body (strides and both storage modes)"""
    s1, s2, sr = deg + 1 + pad, deg + 1 + 2 * pad, 2 * deg + 1 + pad + (3 * deg if mode else 0)
    n1 = 3 * s1 + deg + 1
    names = lambda nm, s: [X.cvar('%s%d_%d' % (nm, k // s, k % s)) if k % s <= deg else C.of(0) for k in range(3 * s + deg + 1)]
    nm = 'poly_fmult_two_polys2x2 deg=%d mode_offset=%d strides %d,%d,%d' % (deg, mode, s1, s2, sr)
    class Pl(Arg):
        def __init__(s, inv): s.inv = inv
        def sym(s, e, st):
            o = st.new(256, 'arg', 'fft plan (%s,%s)' % (n, s.inv)); st.ghost[('plan', o.id)] = (n, s.inv)
            return [Ptr(o.id, 0)]
    n = fastlen(c, deg)
    cs = Case('fnft__poly_fmult_two_polys2x2', [U(deg), Arr('a', n1, init=names('a', s1)), U(s1), Arr('b', 3 * s2 + deg + 1, init=names('b', s2)), U(s2), Arr('res', 4 * sr, role='out'), U(sr), Pl(0), Pl(1),
                                                Arr('b0', n, role='out'), Arr('b1', n, role='out'), Arr('b2', n, role='out'), U(mode)])
    e, R = cs.sym(c, contracts=dict(FFT), generic=True)
    c.safety_fail(nm, cs, e)
    M = lambda t: [[[X.cvar('%s%d_%d' % (t, 2 * i + j, k)) for k in range(deg + 1)] for j in (0, 1)] for i in (0, 1)]
    W = matmul_poly(M('a'), M('b'), 2)
    good = 0
    for st in R:
        if not c.truth_ret(nm + ' succeeds', cs, st.retval == 0, st.retval): return
        good += 1
        it = []
        for i in (0, 1):
            for j in (0, 1):
                for k in range(2 * deg + 1): it += cpairs('res', (2 * i + j) * sr + k, e.getc(st, cs.ptr['res'], (2 * i + j) * sr + k), W[i][j][k])
        c.eq(nm + ': product', None, st, it, scope='bounded', sampler=samp)
    if not good: c.record(nm, 'undecided', 'engine', 'no successful path')


def fastlen(c, deg):
    return int(Case('fnft__poly_fmult_two_polys_len', [U(deg)]).conc({}, 'real')['ret'])


def reject(c, fam, n, deg, kap):
    """unsupported discretizations, lengths that are no power of two, wrong kappa"""
    if fam == 'kdv' and kap != 1: return
    b = n.replace('_VANILLA', '')
    D = deg // (DEG[b] * ups(b))
    L = 4 * (deg + 1)
    mk = lambda A: fin(fam, deg, A('T', L), A('q', max(D, 1)), F('eps'), kap, enum(fam)[n])
    cs = mk(lambda nm, k: Arr(nm, k, role='io'))
    nm = '%s_finvscatter rejects %s deg=%d kappa=%d' % (fam, n, deg, kap)
    e, R = cs.sym(c, contracts={'fnft__poly_fmult_two_polys2x2': two_contract}, pre=lambda e, st, cs: gt(st, var('eps'), ZERO), generic=True)
    c.safety_fail(nm, cs, e)
    if n in SUP and D >= 2 and not D & (D - 1) and kap in (1, -1): return
    for st in R:
        bad = st.retval == 0
        c.truth(nm, not bad, scope='bounded') or c.fail_concrete(nm, None, None, 'returned 0')
    if not R: c.record(nm, 'undecided', 'engine', 'no path')


# ------------------------------------------------------------------ compiled round trips
def battery(c):
    rng = np.random.default_rng(c.seed + 15)
    items = []
    for fam in ('nse', 'kdv'):
        for n in SUP:
            for kap in (1, -1) if fam == 'nse' else (1,):
                for p in range(1, 11):
                    for r in range(6 if p < 6 else 2):
                        items.append(trip(fam, n, kap, 2 ** p, r, rng))
        for n, v in sorted(enum(fam).items()):
            b = n.replace('_VANILLA', '')
            if b not in DEG: continue
            for D in (1, 2, 3, 4, 6, 8, 12, 16, 64):
                if n in SUP and D > 1 and not D & (D - 1): continue
                items.append(rej(fam, n, DEG[b] * D, D, v, 1, 'samples %d' % D, rng))
        for v in (-1, 99, 2 ** 31 - 1):
            if v not in enum(fam).values(): items.append(rej(fam, str(v), 4, 4, v, 1, 'unknown discretization', rng))
        if fam == 'nse': items += [rej(fam, n, 4, 4, enum(fam)[n], k, 'kappa', rng) for n in SUP for k in (0, 2, -2)]
        items += [rej(fam, n, 4, 4, enum(fam)[n], 1, 'step size', rng, eps=e) for n in SUP for e in (0.0, -1.0, float('nan'))]
    items.append(trip('kdv', '2SPLIT2A', 1, 8, 1, np.random.default_rng(15), exact=True))
    c.battery(items)


def trip(fam, n, kap, D, r, rng, exact=False):
    eps = float(rng.uniform(.02, 2) * (10.0 ** rng.integers(-2, 2) if r % 2 else 1))
    lim = {('2SPLIT2_MODAL', 1): 3, ('2SPLIT2_MODAL', -1): .9, ('2SPLIT2A', 1): 1.4, ('2SPLIT2A', -1): 1.5}[n, kap]
    if fam == 'kdv': lim = .5
    a = min(lim, (2.5 if r % 3 else .5) / D ** .5 if D > 8 else lim)
    if kap == -1 and D > 8: a = min(a, 4.0 / D)
    x = rng.uniform(0, a, size=D) * np.exp(2j * np.pi * rng.uniform(size=D) * (r > 0))
    if r == 2: x[rng.integers(D)] = 0
    if r == 4 and fam == 'nse': x[:] = 0; x[-1] = .3
    if r == 5: x = x.real + 0j
    s = x / eps
    if fam == 'kdv':
        eps = float(rng.uniform(.02, .3)); s = x / eps / (1 if r % 2 else 4)
        if n == '2SPLIT2_MODAL':
            s = np.exp(-np.abs(np.arange(D) - D / 2) / (D / 6 + 1)) * s * min(1, 20 / D)
        else: s = s * min(1, 20 / D) * min(1, .5 * D ** -.5)
    v = enum(fam)[n]
    q, rr = (s, -kap * s.conj()) if fam == 'nse' else (-np.ones(D) + 0j, s)
    numel = 4 * (D + 1) * 2
    fw = Case('fnft__%s_fscatter' % fam, [U(D), RawArr('q', q), RawArr('r', rr), F(eps)] + ([I(1)] if fam == 'kdv' else []) + [RawArr('res', np.zeros(numel, complex), 'out'), RawArr('d', np.zeros(1, np.uint64), 'out'), Null(), I(v)])
    def run():
        o = fw.conc({}, 'real')
        if o['ret'] != 0: return dict(ret=o['ret'], fw=True)
        T = o['res'][:4 * (D + 1)].copy()
        b = fin(fam, D, RawArr('T', T, 'io'), RawArr('q', np.full(D, SENT), 'out'), F(eps), kap, v).conc({}, 'real')
        return dict(ret=b['ret'], q=b['q'], guards=b['guards'])
    def judge(o):
        if o['ret'] != 0: return '%s step returned %d' % ('forward' if o.get('fw') else 'inverse', o['ret'])
        if not o['guards']: return 'memory outside the arrays modified'
        err = abs(o['q'] - s).max() / max(abs(s).max(), 1e-300)
        tol = 1e-8 * D
        if fam == 'kdv' and n == '2SPLIT2A' and not exact: tol = 3 * eps ** 2 * max(abs(s).max(), .1) + 1e-6   # first-order accurate inverse (known finding)
        if not err < tol: return 'samples differ from the original ones by %.3g (relative)' % err
    return ('%s round trip %s kappa=%d D=%d #%d executed%s' % (fam, n, kap, D, r, ' (full accuracy)' * exact), NP('fnft__%s_finvscatter' % fam, run, 'fscatter then finvscatter'), judge, dict(discretization=n, D=D, kappa=kap, eps=eps, samples=[str(z) for z in s[:16]], **({'key': KNOWN} if exact else {})))


def rej(fam, n, deg, D, v, kap, what, rng, eps=.1):
    cs = fin(fam, deg, RawArr('T', rng.normal(size=4 * (deg + 1)) + 0j, 'io'), RawArr('q', np.full(max(D, 1), SENT), 'io'), F(eps), kap, v)
    def judge(o):
        if o['ret'] == 0: return 'accepted'
        if not o['guards']: return 'memory outside the arrays modified'
    return ('%s_finvscatter rejects %s (%s) executed' % (fam, n, what), cs, judge, dict(discretization=n, deg=deg, kappa=kap, eps=str(eps)))
